"""Running the turbine and farm classes abstractly, with the flow kernels kept opaque.

A kernel call becomes nodes kout<kernel, options, k>(numeric arguments): two calls with the same
arguments are the same node, so the velocity returned by the turbine is an expression over kernel
outputs that can be compared, mirrored and rotated.
"""
import itertools, warnings
from .interp import Num, Arr, Tup, PyC, NONE, PathDead, Dct, Lst, Phi, Unk, Cls
from .kern import new_interp, Run, Anchor, outputs, nodes_of

VC, VS, VD = 'wiz.VortexCylinder.', 'wiz.VortexCylinderSkewed.', 'wiz.VortexDoublet.'
# kernel -> (component it models, arguments giving x,y,z, strength parameter)
KERNELS = {
    VC + 'vc_tang_u': 'tang', VC + 'vc_tang_u_doublet': 'tang', VC + 'vc_longi_u': 'longi', VC + 'vc_root_u': 'root',
    VS + 'svc_tang_u': 'tang', VS + 'svc_longi_u': 'longi', VS + 'svc_root_u': 'root',
    VD + 'doublet_line_u': 'tang', 'wiz.SelfSimilar.ss_u': 'tang',
}
STRENGTH = {'vc_tang_u': 'gamma_t', 'vc_tang_u_doublet': 'gamma_t', 'vc_longi_u': 'gamma_l', 'vc_root_u': 'Gamma_r',
            'svc_tang_u': 'gamma_t', 'svc_longi_u': 'gamma_l', 'svc_root_u': 'Gamma_r', 'doublet_line_u': 'dmz_dz', 'ss_u': 'gamma_t'}
NOUT = {'ss_u': 1}

def knode(it, v):
    """graph node(s) of an argument; (node, literal)"""
    if isinstance(v, Num): return v.node, None
    if isinstance(v, Arr):
        c = it.content(v)
        if len(c) == 1: return list(c.values())[0], None
        return it.g.mk('pack', [c[k] for k in sorted(c)], len(c)), None
    if isinstance(v, PyC): return None, repr(v.v)
    if isinstance(v, Phi):
        a, b = knode(it, v.a), knode(it, v.b)
        if a[0] is not None and b[0] is not None: return it.g.sel(v.c, a[0], b[0]), None
    return it.g.mk('unk', (), 'kernel argument'), None

class KCall(object): pass

def kernel_handler(full, log):
    name = full.rsplit('.', 1)[1]
    def h(it, f, env):
        def one(env):
            names = [a.arg for a in f.node.args.args]
            nodes = []; lits = []
            shape = None
            for p in names:
                v = env[p]
                if isinstance(v, Arr) and p in ('Xcp', 'Ycp', 'Zcp'): 
                    shape = v.shape if shape is None or len(v.shape) > len(shape) else shape
                n, lit = knode(it, v)
                if n is None: lits.append((p, lit))
                else:
                    if it.g.cval(n) is not None and p in ('polar_out',): lits.append((p, repr(bool(it.g.cval(n)))))
                    nodes.append((p, n))
            attr = (name, tuple(p for p, _ in nodes), tuple(lits))
            k = KCall(); k.name = name; k.full = full; k.args = dict(nodes); k.lits = dict(lits); k.loc = it.loc(); k.pc = list(it.pc); k.loops = list(it.loops)
            k.env = env
            if not it.muted: log.append(k)
            po = k.lits.get('polar_out', 'None')
            nout = NOUT.get(name, 2 if po == 'True' and KERNELS[full] == 'tang' else 3)
            res = []
            for i in range(nout):
                nd = it.g.mk('kout', [n for _, n in nodes], (name, i, nout, attr[1], attr[2]))
                res.append(it.arr(nd, shape) if shape is not None else Num(nd))
            return res[0] if nout == 1 else Tup(res)
        return one(env)
    return h

ORI = {   # orientation -> (e_shaft_yaw0, e_vert)
    'z': ((0, 0, 1), (0, 1, 0)),
    'x': ((1, 0, 0), (0, 0, 1)),
}

class TRun(Run): pass

def vec(it, name, n=3):
    return it.lst([Num(it.g.mk('input', (), ('num', '%s%d' % (name, i)))) for i in range(n)], ['param:' + name])

def solver_handler(name, axis):
    def h(it, f, env):
        ks = []
        for p, v in env.items():
            n, lit = knode(it, v)
            if n is not None: ks.append((p, n))
        def out(k): return it.g.mk('sout', [n for _, n in ks], (name, k, tuple(p for p, _ in ks)))
        r = env.get('r')
        shape = r.shape if isinstance(r, Arr) else (axis,)
        conc = [i for i, a in enumerate(shape) if isinstance(a, int)]
        def mkarr(k):
            if not conc: return it.arr(out(k), shape)
            keys = list(itertools.product(*[range(shape[i]) for i in conc]))
            return it.arr({key: out(k) if len(keys) == 1 else it.g.mk('at', (out(k), it.g.const(key[0]))) for key in keys}, shape)
        return Tup([mkarr('gamma_t'), mkarr('gamma_l'), Num(out('Gamma_r')), it.dct({})])
    return h

def make_turbine(repo, ori='z', ncyl=1, opaque=None, model=None, ground=None, ctor=None, load=True, yaw=True, chi='sym', U0='sym', opaque_kernels=True):
    """an interpreter holding a turbine with symbolic state; chi: 'sym' prescribed / None computed / number"""
    log = []
    op = {}
    if opaque_kernels:
        for k in KERNELS: op[k] = kernel_handler(k, log)
        op['wiz.Solver.WakeVorticityFromCt'] = solver_handler('WakeVorticityFromCt', 'nr')
        op['wiz.Solver.WakeVorticityFromGamma'] = solver_handler('WakeVorticityFromGamma', 'nr')
    op.update(opaque or {})
    it = new_interp(repo, op)
    r = TRun(); r.it = it; r.log = log
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cls = it.modattr('wiz.WindTurbine', 'WindTurbine')
    if not isinstance(cls, Cls): raise Anchor('wiz.WindTurbine.WindTurbine not found')
    r.cls = cls
    S = lambda n: Num(it.g.mk('input', (), ('num', n)))
    r.S = S
    es, ev = ORI[ori]
    L3 = lambda t: it.lst([it.num(x) for x in t])
    kw = {'R': S('R'), 'r_hub': vec(it, 'hub'), 'e_shaft_yaw0': L3(es), 'e_vert': L3(ev), 'U0': vec(it, 'U')}
    if U0 == 'axis':
        kw['U0'] = it.lst([Num(it.g.mul(it.c(x), S('Uinf').node)) for x in es])
    if model is not None: kw['Model'] = PyC(model)
    if ground is not None: kw['Ground'] = it.num(ground)
    kw.update({k: v(it) if callable(v) and not isinstance(v, (Num, PyC)) else v for k, v in (ctor or {}).items()})
    r.wt = it.call(cls, [], kw)
    if yaw: method(it, r.wt, 'update_yaw_pos', [S('yaw')])
    if load:
        if ncyl == 1: method(it, r.wt, 'update_loading', [], {'Ct': S('Ct'), 'Lambda': S('Lambda')})
        else:
            A = lambda n: it.arr(it.g.mk('input', (), ('num', n)), ('nr',))
            method(it, r.wt, 'update_loading', [], {'r': A('r'), 'Ct': A('Ct'), 'Lambda': S('Lambda'), 'nCyl': NONE})
    if chi == 'sym': method(it, r.wt, 'set_chi', [S('chi')])
    elif chi is not None: method(it, r.wt, 'set_chi', [it.num(chi)])
    return r

def method(it, obj, name, args=(), kw=None):
    m = it.getattr(obj, name)
    if isinstance(m, Unk): raise Anchor('%s has no method %s' % (obj.cls.name, name))
    return it.call(m, list(args), kw or {})

def points(it):
    def P(n): return it.arr(it.g.mk('input', (), ('num', n)), ('P',), ['param:' + n])
    return P('Xg'), P('Yg'), P('Zg')

def compute_u(r, **opts):
    it = r.it
    kw = {k: (PyC(v) if isinstance(v, str) else NONE if v is None else v if not isinstance(v, (bool, int, float)) else it.num(v)) for k, v in opts.items()}
    try:
        r.pts = points(it)
        r.value = method(it, r.wt, 'compute_u', list(r.pts), kw)
        r.dead = False
    except PathDead:
        r.value = None; r.dead = True
    return r
