"""Every computation of the package, run abstractly once per configuration: kernels, curled wake, loading
solver, turbine, farm and helpers.  Yields Run objects with .where, .label, .it (events, issues), .value,
.pcells (cells of caller data)."""
import itertools, warnings
from . import entries, kern, turb
from .interp import Num, Arr, Tup, PyC, NONE, PathDead, AbsIter, Cls, Ext

def kernels(repo, which=('kernels', 'curled', 'solver')):
    for w in which:
        for e in getattr(entries, w)():
            for cfg in e.configs:
                r = kern.run_entry(repo, e, cfg)
                r.where = e.func; r.key = e.key; r.label = cfg[0]; r.module = e.module
                yield r

def zeros(repo, which=('kernels', 'curled')):
    """every routine with a strength (or the skew) that is exactly zero"""
    for w in which:
        for e in getattr(entries, w)():
            Z = [x[0] for x in e.args if x[1] == 'S' and (str(x[3]).startswith('str:') or x[3] == 'm')]
            for z in [(x,) for x in Z] + ([tuple(Z)] if len(Z) > 1 else []):
                for lab, kw in e.configs:
                    if any(x in kw for x in z): continue
                    r = kern.run_entry(repo, e, (lab, dict(kw, **{x: 0 for x in z})))
                    r.where = e.func; r.key = e.key; r.label = (lab + ',' + ','.join(x + '=0' for x in z)).strip(','); r.module = e.module
                    yield r

SHAPES = (('points in a 3-D array', ('P', 'Q', 'V')),)
SINGLE = (('one point', (1,)),)

def shaped(shape):
    def mk(name):
        def f(it):
            nd = it.g.mk('input', (), ('num', name))
            return it.arr({tuple(0 for _ in shape): nd} if isinstance(shape[0], int) else nd, shape, ['param:' + name])
        return f
    return mk

def shapes(repo, which=('kernels', 'curled'), same=False, what=SHAPES):
    """every routine at points given in other arrangements (with the run for a vector of points, when same)"""
    for w in which:
        for e in getattr(entries, w)():
            pts = [a[0] for a in e.args if a[1] == 'P']
            if not pts or e.get('points2d') or e.get('scalar'): continue
            for cfg in e.configs:
                it = kern.new_interp(repo) if same else None
                ref = kern.run_entry(repo, e, cfg, it=it) if same else None
                for lab, sh in what:
                    r = kern.run_entry(repo, e, cfg, over={n: shaped(sh)(n) for n in pts}, it=it)
                    r.where = e.func; r.key = e.key; r.label = (cfg[0] + ',' + lab).strip(','); r.module = e.module; r.ref = ref; r.shape = sh
                    yield r

def turbine_shapes(repo, what=SHAPES):
    """a turbine and a farm asked at points given in other arrangements"""
    for lab, sh in what:
        for model, ground, nw, oi, ncyl in (('VC', False, False, False, 1), ('VC', True, True, True, 'n'), ('VD', False, True, False, 1), ('SS', True, False, True, 1), ('VCFF', False, False, True, 1)):
            r = turb.make_turbine(repo, model=model, ground=ground, ncyl=ncyl, chi=0); it = r.it
            lr = it.num(model == 'VC')
            def ask(P): return turb.method(it, r.wt, 'compute_u', P, {'longi': lr, 'root': it.num(True), 'only_ind': it.num(oi), 'no_wake': it.num(nw)})
            r.where = r.key = 'WindTurbine.compute_u'; r.label = '%s,ground=%s,no_wake=%s,%s' % (model, ground, nw, lab); r.module = 'wiz.WindTurbine'; r.shape = sh; r.dead = False
            try:
                r.refvalue = ask(list(turb.points(it)))
                r.value = ask([shaped(sh)(n)(it) for n in ('Xg', 'Yg', 'Zg')])
            except PathDead: r.value = None; r.dead = True
            yield r
        r = farm(repo, 2); it = r.it
        r.label = '2 turbines,' + lab; r.shape = sh; r.refvalue = r.value; r.where = r.key = 'WindFarm.velocity_field'; r.module = 'wiz.WindFarm'
        try: r.value = turb.method(it, r.farm, 'velocity_field', [shaped(sh)(n)(it) for n in ('Xg', 'Yg', 'Zg')], {'U0': turb.vec(it, 'V')}); r.dead = False
        except PathDead: r.value = None; r.dead = True
        yield r

def turbine_options(tier='quick'):
    """(make_turbine options, compute_u options)"""
    for model in ('VC', 'VCFF', 'VD', 'SS'):
        for ori in ('z', 'x'):
            for ncyl in (1, 'n'):
                if ncyl != 1 and model != 'VC': continue
                for chi in ('sym', None, 0):
                    for ground in (False, True):
                        for nw in (False, True):
                            lr = model == 'VC'
                            yield dict(model=model, ori=ori, ncyl=ncyl, chi=chi, ground=ground), dict(longi=lr, root=True, only_ind=False, no_wake=nw)

def turbines(repo, tier='quick', opts=None):
    for mk, cu in (opts or turbine_options(tier)):
        r = turb.make_turbine(repo, **mk)
        r.nev = len(r.it.events)
        turb.compute_u(r, **cu)
        r.where = 'WindTurbine.compute_u'; r.key = r.where; r.module = 'wiz.WindTurbine'
        r.mk = mk; r.cu = cu
        r.label = ','.join('%s=%s' % (k, v) for k, v in itertools.chain(mk.items(), cu.items()))
        yield r

QUERIES = ['yaw_wind', 'yaw_error', 'chi', 'rotor_disk_points', 'tostring', '__repr__', 'compute_u']

def history(repo, ori='z'):
    """a turbine taken through its methods"""
    r = turb.make_turbine(repo, ori=ori)
    it = r.it
    for a in ('yaw_wind', 'yaw_error', 'chi'): it.getattr(r.wt, a)
    turb.method(it, r.wt, 'tostring', [], {'short': it.num(False)})
    turb.method(it, r.wt, '__repr__', [])
    turb.method(it, r.wt, 'rotor_disk_points', [])
    r.where = 'WindTurbine queries'; r.key = r.where; r.label = ori; r.value = None; r.dead = False; r.module = 'wiz.WindTurbine'
    return r

LOADINGS = {'none': None, 'Ct': {'Ct': 'q'}, 'Gamma': {'Gamma': 'q'}, 'table': {'Ct': 'q', 'gamma_t_Ct': Ext('numpy.sqrt')}}

def lives(repo):
    """turbines as made and after each kind of loading, asked everything"""
    for ori in ('z', 'x'):
        for kind, load in sorted(LOADINGS.items()):
            for short in (True, False):
                r = turb.make_turbine(repo, ori=ori, load=False, yaw=False, chi=None); it = r.it
                r.where = r.key = 'WindTurbine queries'; r.module = 'wiz.WindTurbine'; r.label = '%s,loading %s,short=%s' % (ori, kind, short); r.value = None; r.dead = False
                out = []
                try:
                    if load: turb.method(it, r.wt, 'update_loading', [], dict({k: r.S(v) if v == 'q' else v for k, v in load.items()}, Lambda=r.S('Lambda')))
                    for a in ('yaw_wind', 'yaw_error', 'chi'): out.append(it.getattr(r.wt, a))
                    turb.method(it, r.wt, 'tostring', [], {'short': it.num(short)})
                    turb.method(it, r.wt, '__repr__', [])
                    out.append(turb.method(it, r.wt, 'rotor_disk_points', [], {'nP': it.num(4)}))
                    r.value = Tup(out)
                except PathDead: r.dead = True
                yield r

def layouts(repo):
    """farms of none to three turbines asked for their layout and text"""
    for n in (0, 1, 2, 3):
        r = farm(repo, n); it = r.it
        r.where = r.key = 'WindFarm queries'; r.label = '%d turbines' % n
        try:
            turb.method(it, r.farm, 'tostring', []); turb.method(it, r.farm, '__repr__', [])
            r.value = Tup([it.getattr(r.farm, 'layout')]); r.dead = False
        except PathDead: r.value = None; r.dead = True
        yield r

def farm_cls(it):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c = it.modattr('wiz.WindFarm', 'WindFarm')
    if not isinstance(c, Cls): raise kern.Anchor('wiz.WindFarm.WindFarm not found')
    return c

def sym_farm(repo, U0=False, **kw):
    """a farm of any number of turbines (one symbolic turbine per index), compute_u opaque"""
    log = []
    def h(it, f, env):
        i = it.loops[-1][1] if it.loops else it.g.mk('unk', (), 'turbine outside a loop over the farm')
        log.append((dict(env), i, it.loc()))
        return Tup([it.arr(it.g.mk('wtu', (i,), k), ('P',)) for k in range(3)])
    r = turb.make_turbine(repo, opaque={'wiz.WindTurbine.WindTurbine.compute_u': h}); it = r.it
    r.calls = log
    r.farm = it.call(farm_cls(it), [], {})
    it.obj(r.farm)['abs'] = AbsIter('nWT', lambda i: r.wt)
    r.pts = turb.points(it)
    args = dict(kw)
    if U0: args['U0'] = turb.vec(it, 'V')
    r.nev = len(it.events)
    try:
        r.value = turb.method(it, r.farm, 'velocity_field', list(r.pts), args); r.dead = False
    except PathDead: r.value = None; r.dead = True
    r.where = 'WindFarm.velocity_field'; r.key = r.where; r.label = 'any number of turbines,U0=%s' % U0; r.module = 'wiz.WindFarm'
    return r

def farm(repo, n=2, U0=True, ori='z', opts=None, append=True, order=None, ctor=None):
    """a farm of n real turbines"""
    r = turb.make_turbine(repo, ori=ori, ctor=ctor); it = r.it
    es, ev = turb.ORI[ori]
    L3 = lambda t: it.lst([it.num(x) for x in t])
    r.wts = [r.wt]
    for i in range(1, n):
        w = it.call(r.cls, [], dict({'R': r.S('R%d' % i), 'r_hub': turb.vec(it, 'hub%d_' % i), 'e_shaft_yaw0': L3(es), 'e_vert': L3(ev), 'U0': turb.vec(it, 'U')}, **(ctor or {})))
        turb.method(it, w, 'update_yaw_pos', [r.S('yaw%d' % i)])
        turb.method(it, w, 'update_loading', [], {'Ct': r.S('Ct%d' % i), 'Lambda': r.S('Lambda%d' % i)})
        turb.method(it, w, 'set_chi', [r.S('chi%d' % i)])
        r.wts.append(w)
    r.farm = it.call(farm_cls(it), [], {})
    for w in (r.wts[:n] if order is None else [r.wts[k] for k in order]): turb.method(it, r.farm, 'append', [w])
    r.pts = turb.points(it)
    kw = {k: (PyC(v) if isinstance(v, str) else NONE if v is None else it.num(v)) for k, v in (opts or {}).items()}
    if U0: kw['U0'] = turb.vec(it, 'V')
    r.nev = len(it.events)
    try:
        r.value = turb.method(it, r.farm, 'velocity_field', list(r.pts), kw); r.dead = False
    except PathDead: r.value = None; r.dead = True
    r.where = 'WindFarm.velocity_field'; r.key = r.where; r.label = '%d turbines,U0=%s,%s' % (n, U0, opts or ''); r.module = 'wiz.WindFarm'
    return r

def farm_helpers(repo):
    it = kern.new_interp(repo)
    for mirror in (False, True):
        for zs in (None, 'sym'):
            r = kern.Run(); r.it = it = kern.new_interp(repo); g = it.g
            S = lambda n: Num(g.mk('input', (), ('num', n)))
            f = it.func('wiz.WindFarm', 'gridLayout')
            if f is None: raise kern.Anchor('wiz.WindFarm.gridLayout not found')
            kw = {'nx': it.num(3), 'xSpacing': S('dx'), 'nz': it.num(2), 'hub_height': S('h'), 'mirror': it.num(mirror)}
            if zs: kw['zSpacing'] = S('dz')
            try: r.value = it.call(f, [], kw); r.dead = False
            except PathDead: r.value = None; r.dead = True
            r.where = r.key = 'gridLayout'; r.label = 'mirror=%s,zSpacing=%s' % (mirror, zs); r.module = 'wiz.WindFarm'
            yield r
    r = kern.Run(); r.it = it = kern.new_interp(repo); g = it.g
    S = lambda n: Num(g.mk('input', (), ('num', n)))
    f = it.func('wiz.WindFarm', 'windfarm_gridlayout_CTconst')
    if f is None: raise kern.Anchor('wiz.WindFarm.windfarm_gridlayout_CTconst not found')
    X, Y, Z = turb.points(it)
    try: r.value = it.call(f, [X, Y, Z, S('R'), S('CT'), S('U0'), it.num(3), S('dx'), it.num(2), S('dz')], {'hub_height': S('h'), 'mirror': it.num(True)}); r.dead = False
    except PathDead: r.value = None; r.dead = True
    r.where = r.key = 'windfarm_gridlayout_CTconst'; r.label = '3x2'; r.module = 'wiz.WindFarm'
    yield r

def elliptic(repo):
    it = kern.new_interp(repo, opaque_elliptic=False)
    f = it.func('wiz.elliptic', 'ellipticPiCarlson')
    if f is None: raise kern.Anchor('wiz.elliptic.ellipticPiCarlson not found')
    r = kern.Run(); r.it = it; g = it.g
    A = lambda n: it.arr(g.mk('input', (), ('num', n)), ('P',), ['param:' + n])
    try: r.value = it.call(f, [A('n'), A('m')], {}); r.dead = False
    except PathDead: r.value = None; r.dead = True
    r.where = r.key = 'ellipticPiCarlson'; r.label = ''; r.module = 'wiz.elliptic'
    yield r

def skew_helpers(repo):
    for name, args in (('fKxit', ('vr', 'm')), ('fKzt', ('vr', 'm'))):
        it = kern.new_interp(repo)
        f = it.func('wiz.VortexCylinderSkewed', name)
        if f is None: continue
        r = kern.Run(); r.it = it; g = it.g
        try: r.value = it.call(f, [it.arr(g.mk('input', (), ('num', 'vr')), ('P',), ['param:vr']), Num(g.mk('input', (), ('num', 'm')))], {}); r.dead = False
        except PathDead: r.value = None; r.dead = True
        r.where = r.key = name; r.label = ''; r.module = 'wiz.VortexCylinderSkewed'
        yield r

def everything(repo, tier='quick'):
    import time
    for r in kernels(repo): yield r
    for r in zeros(repo): yield r
    for r in shapes(repo): yield r
    for r in turbine_shapes(repo): yield r
    for r in turbines(repo, tier): yield r
    for o in ('z', 'x'): yield history(repo, o)
    for r in lives(repo): yield r
    for r in layouts(repo): yield r
    for u in (False, True): yield sym_farm(repo, u)
    yield farm(repo, 2)
    for r in farm_helpers(repo): yield r
    for r in elliptic(repo): yield r
    for r in skew_helpers(repo): yield r

def stored(repo):
    """turbines and farms to which every setting is handed as an array the caller keeps"""
    for shape in ((3,), (3, 1), (1, 3)):
        for ori in ('z', 'x'):
            r = turb.make_turbine(repo, ori=ori, load=False, yaw=False, chi=None)
            it = r.it; g = it.g; S = r.S
            nd = lambda i: tuple(i if n == 3 else 0 for n in shape)
            def A(name, vals=None):
                c = {nd(i): (it.c(vals[i]) if vals else g.mk('input', (), ('num', '%s%d' % (name, i)))) for i in range(3)}
                return it.arr(c, shape, ['param:' + name])
            es, ev = turb.ORI[ori]
            kw = {'R': S('R'), 'r_hub': A('hub'), 'e_shaft_yaw0': A('e_shaft_yaw0', es), 'e_vert': A('e_vert', ev), 'U0': A('U0')}
            r.where = r.key = 'WindTurbine(...)'; r.module = 'wiz.WindTurbine'; r.label = 'arrays %s,%s' % (shape, ori)
            r.value = None; r.dead = False; r.nev = 0; r.states = {}
            w = r.wt = it.call(r.cls, [], kw); r.states['constructor'] = snapshot(it, w)
            turb.method(it, w, 'update_position', [A('r_hub')]); r.states['update_position'] = snapshot(it, w)
            turb.method(it, w, 'update_wind', [A('U0_g')]); r.states['update_wind'] = snapshot(it, w)
            if shape == (3,):
                P = lambda n: it.arr(g.mk('input', (), ('num', n)), ('nr',), ['param:' + n])
                for kind in ('Ct', 'Gamma'):
                    for n in (None, 1, 5):
                        turb.method(it, w, 'update_loading', [], {'r': P('r'), kind: P(kind), 'Lambda': S('Lambda'), 'nCyl': NONE if n is None else it.num(n)})
                        r.states['update_loading(%s,nCyl=%s)' % (kind, n)] = snapshot(it, w)
                farm = it.call(farm_cls(it), [], {}); turb.method(it, farm, 'append', [w])
                it.setattr(farm, 'layout', it.arr({(0, i): g.mk('input', (), ('num', 'lay%d' % i)) for i in range(3)}, (1, 3), ['param:layout']))
                r.states['WindFarm.layout'] = snapshot(it, w)
            yield r

def snapshot(it, inst): return dict(it.obj(inst)['attrs'])
