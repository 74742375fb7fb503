"""Interpreting an entry point under one configuration."""
import warnings
from .interp import Interp, Num, Arr, Tup, PyC, NONE, PathDead, Dct, Lst, Phi, Unk
from . import npmodel

class Anchor(Exception):
    """an entry point the property is stated about has vanished"""

def elliptic_opaque(it, f, env):
    """complete elliptic integral of the third kind as an uninterpreted function of (n, m)"""
    return it.np.binary(lambda a, b: it.g.fn('ellippi', a, b), env['n'], env['m'])

class Run(object):
    pass

def mkarg(it, spec):
    name, kind, dims, role = spec
    g = it.g
    node = lambda s='': g.mk('input', (), ('num', name + s))
    if kind == 'P': return it.arr(node(), ('P',), ['param:' + name])
    if kind == 'S': return Num(node())
    if kind == 'V3':
        return it.lst([Num(node('[%d]' % i)) for i in range(3)], ['param:' + name])
    if kind[0] == 'A':
        axes = kind[1:]
        conc = [i for i, a in enumerate(axes) if isinstance(a, int)]
        if not conc: return it.arr(node(), axes, ['param:' + name])
        import itertools
        keys = list(itertools.product(*[range(axes[i]) for i in conc]))
        return it.arr({k: node(str(list(k))) for k in keys}, axes, ['param:' + name])
    raise ValueError(kind)

def new_interp(repo, opaque=None, opaque_elliptic=True):
    op = dict(opaque or {})
    if opaque_elliptic: op.setdefault('wiz.elliptic.ellipticPiCarlson', elliptic_opaque)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        it = Interp(repo, opaque=op)
    return it

def run_entry(repo, e, cfg, opaque=None, opaque_elliptic=True, over=None, it=None):
    if it is None: it = new_interp(repo, opaque, opaque_elliptic)
    r = Run(); r.it = it; r.entry = e; r.cfg = cfg
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = it.func(e.module, e.func)
    if f is None: raise Anchor('%s.%s not found' % (e.module, e.func))
    label, kw = cfg
    args = {}
    for spec in e.args:
        if spec[0] in kw: continue
        args[spec[0]] = (over or {}).get(spec[0]) and over[spec[0]](it) or mkarg(it, spec)
    for k, v in kw.items():
        args[k] = NONE if v is None else (PyC(v) if isinstance(v, str) else it.num(v))
    r.args = args
    r.dead = False
    it.events.clear()
    try:
        r.value = it.call(f, [], args)
    except PathDead:
        r.value = None; r.dead = True
    return r

def outputs(it, v, path=''):
    """flatten a result into (path, value) leaves"""
    if isinstance(v, Tup):
        out = []
        for i, x in enumerate(v.items): out += outputs(it, x, path + '[%d]' % i)
        return out
    if isinstance(v, Lst) and not it.obj(v).get('abs'):
        out = []
        for i, x in enumerate(it.obj(v)['items']): out += outputs(it, x, path + '[%d]' % i)
        return out
    if isinstance(v, Dct):
        out = []
        for k, x in it.obj(v)['d'].items(): out += outputs(it, x, path + '[%r]' % (k,))
        return out
    return [(path, v)]

def nodes_of(it, v):
    """[(suffix, node)] of a numeric leaf"""
    if isinstance(v, Num): return [('', v.node)]
    if isinstance(v, Arr): return [(str(list(k)) if k else '', n) for k, n in it.content(v).items()]
    if isinstance(v, Phi):
        return [('|a' + s, n) for s, n in nodes_of(it, v.a)] + [('|b' + s, n) for s, n in nodes_of(it, v.b)]
    return []
