"""Dimensional analysis (abstract interpretation over exponents of length and time) of the value graph
of every flow kernel, cylinder-system routine, legacy component routine, wake solver and curled-wake
routine, under every option combination; every sum, difference, comparison, selection and function
argument must be dimensionally consistent and every output must have its documented dimension."""
from sa import entries, kern, units, simp, turb
from sa.ir import show
from sa.interp import NONE, PathDead

def expected(e, path):
    o = e.out
    if isinstance(o, tuple): return o
    # solver: list per output, dict for the last
    i = int(path[1:path.index(']')]) if path.startswith('[') else 0
    d = o[i] if i < len(o) else None
    if isinstance(d, dict):
        k = path[path.index(']') + 1:].strip('[]').strip("'")
        return d.get(k)
    return d

def run(rep, repo, tier):
    todo = entries.kernels() + entries.curled() + entries.solver()
    for e in todo:
        inputs = {}
        for spec in e.args: inputs[spec[0]] = spec[2]
        for cfg in e.configs:
            r = kern.run_entry(repo, e, cfg)
            check(rep, e, cfg[0], r, inputs)
    turbine(rep, repo)
    state(rep, repo)
    return 300

TIN = {'R': entries.L, 'hub': entries.L, 'U': entries.VEL, 'yaw': entries.D0, 'Ct': entries.D0, 'Lambda': entries.D0,
       'chi': entries.D0, 'r': entries.L, 'Xg': entries.L, 'Yg': entries.L, 'Zg': entries.L}

def ksig():
    d = {}
    for e in entries.kernels() + entries.solver():
        dims = {}
        for name, kind, dm, role in e.args: dims[name] = dm
        if isinstance(e.out, tuple): out = lambda k, o=e.out: o
        else:
            def out(k, o=e.out):
                names = ['gamma_t', 'gamma_l', 'Gamma_r']
                i = names.index(k) if k in names else k
                return o[i] if isinstance(i, int) and i < len(o) and isinstance(o[i], tuple) else None
        d.setdefault(e.func, (dims, out))
    return d

def turbine(rep, repo):
    """argument dimensions at every kernel and solver call site, and the turbine's velocity"""
    sig = ksig()
    class E(object): pass
    for model in ('VC', 'VCFF', 'VD', 'SS'):
        for ori in ('z', 'x'):
            for ncyl in (1, 'n'):
                for chi in ('sym', None, 0):
                    if ncyl != 1 and model != 'VC': continue
                    for ground in (False, True):
                        r = turb.make_turbine(repo, ori=ori, ncyl=ncyl, model=model, ground=ground, chi=chi)
                        turb.compute_u(r, longi=True, root=True, only_ind=False, no_wake=True)
                        cfg = 'Model=%s,%s,ncyl=%s,chi=%s,ground=%s' % (model, ori, ncyl, chi, ground)
                        e = E(); e.key = 'WindTurbine.compute_u'; e.out = entries.VEL; e.ksig = sig
                        check(rep, e, cfg, r, TIN)

def check(rep, e, cfg, r, inputs):
    it = r.it; g = it.g
    if r.dead:
        rep.undecided('units', e.key, 'no path returns'); return
    leaves = [(p + s, n) for p, v in kern.outputs(it, r.value) for s, n in kern.nodes_of(it, v)]
    cf = simp.Cofactor(g)
    leaves = [(p, cf.go(n, {})) for p, n in leaves]
    class In(dict):
        def get(self, k, d=None):
            k = k.split('[')[0]
            return inputs.get(k, inputs.get(k.rstrip('0123456789'), d))
    dom = units.Units(g, In(), ksig=getattr(e, 'ksig', None))
    val = units.evaluate(dom, [n for _, n in leaves])
    rep.count('configurations'); rep.count('graph nodes', len(val))
    for (loc, kind, a, b), n in sorted(dom.issues.items(), key=str):
        rep.fail(kind, e.key + ' via ' + loc[2], '%s%s in %s' % (a, ' / ' + b if b else '', '%s' % (n.op if n.op != 'fn' else n.attr)), loc, [show(g, n, 4)], cfg)
    for (loc, why), n in dom.unknown.items():
        rep.undecided('construct with no dimension rule', e.key, '%s at %s' % (why, loc))
    if not dom.issues and not dom.unknown: rep.ok('expressions dimensionally consistent', e.key + ' ' + cfg)
    for p, n in leaves:
        u = val[n.id]; x = expected(e, p)
        if u in (units.ANY,): rep.ok('output dimension', None); continue
        if u == units.TOP or x is None:
            rep.undecided('output dimension', e.key + p, 'unknown'); continue
        if u == units.BOOL: u = units.D0
        if u == (x[0], x[1]): rep.ok('output dimension', '%s %s%s' % (e.key, cfg, p))
        else: rep.fail('output dimension', e.key, 'output %s is %s, documented %s' % (p, units.show(u), units.show((units.Fraction(x[0]), units.Fraction(x[1])))), n.loc, [show(g, n, 3)], cfg)

STATE = {'r': entries.L, 'gamma_t': entries.GAM, 'gamma_l': entries.GAM, 'Gamma_r': entries.CIRC, 'Lambda': entries.D0, 'Ct': entries.D0, 'R': entries.L,
         'yaw_wind': entries.D0, 'yaw_error': entries.D0, 'chi': entries.D0}

def state(rep, repo):
    """what a turbine keeps and answers after each kind of loading"""
    sig = ksig(); tin = dict(TIN, Gamma=entries.CIRC)
    class E(object): pass
    for real in (False, True):
        for kind in ('Ct', 'Gamma'):
            for n in (None, 1, 4):
                r = turb.make_turbine(repo, load=False, chi=None, opaque_kernels=not real); it = r.it
                A = lambda k: it.arr(it.g.mk('input', (), ('num', k)), ('nr',))
                out = {}
                try:
                    turb.method(it, r.wt, 'update_loading', [], {'r': A('r'), kind: A(kind), 'Lambda': r.S('Lambda'), 'nCyl': it.num(n) if n else NONE})
                    for k in STATE: out[k] = it.getattr(r.wt, k)
                    r.dead = False
                except PathDead: r.dead = True
                cfg = '%s(r),nCyl=%s%s' % (kind, n, ',real solver' if real else '')
                if r.dead: rep.undecided('units', 'WindTurbine.update_loading', 'no path returns (%s)' % cfg); continue
                for k, v in out.items():
                    e = E(); e.key = 'WindTurbine.' + k; e.out = STATE[k]; e.ksig = sig
                    r.value = v
                    check(rep, e, cfg, r, tin)
