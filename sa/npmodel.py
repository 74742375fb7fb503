"""Model of builtins, numpy and scipy over the value graph."""
import math, os
from .ir import isnum, INF
from . import taint, dtypes
from .interp import (Num, Arr, PyC, NONE, Tup, Ref, Lst, Dct, Inst, Func, Bound, Cls, Prop, Mod, Ext, ExtObj, Method, Phi, Unk,
                     Slice, AbsIter, UNDEF, PathDead, Unsupported, Val)

BUILTINS = set('''abs all any bool dict enumerate filter float int isinstance issubclass len list map max min next object open pow print
 range repr reversed round set slice sorted str sum super tuple type zip Exception ValueError TypeError RuntimeError NotImplementedError
 KeyError IndexError AttributeError Warning DeprecationWarning UserWarning ZeroDivisionError AssertionError OverflowError ImportError
 ArithmeticError StopIteration frozenset iter hasattr getattr setattr callable complex divmod id hash vars dir globals locals input
 BaseException NotImplemented Ellipsis exit quit bytes format staticmethod classmethod property FloatingPointError ImportWarning
 RuntimeWarning IOError OSError EnvironmentError ModuleNotFoundError LookupError eval exec __import__ memoryview bytearray ord chr delattr breakpoint'''.split())
LISTMETHODS = set('append extend insert remove pop clear index count sort reverse copy __len__ __iter__ __getitem__ __setitem__'.split())

UNARY = {'sqrt', 'sin', 'cos', 'tan', 'arctan', 'arccos', 'arcsin', 'exp', 'log', 'cosh', 'sinh', 'tanh', 'abs', 'sign', 'floor',
         'ceil', 'isnan', 'isinf', 'isfinite', 'log10', 'log2', 'expm1', 'log1p', 'arcsinh', 'arccosh', 'arctanh', 'round', 'trunc', 'rint', 'sinc', 'real', 'imag', 'signbit', 'erf', 'gamma', 'j0', 'j1'}
ALIAS = {'absolute': 'abs', 'fabs': 'abs', 'around': 'round', 'round_': 'round', 'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2', 'fix': 'trunc'}
SIDE = {'print', 'open', 'input', 'exec', 'eval', 'exit', 'quit', 'breakpoint'}
PURE_EXT = ('numpy.', 'scipy.', 'math.', 'builtins.', 'itertools.', 'functools.', 'operator.', 'matplotlib.colors', 'copy.', 'os.path.', 'collections.', 'typing.')

class NP(object):
    def __init__(self, it):
        self.viewcells = set(); self.it = it
        self.g = it.g

    # ------------------------------------------------------------ helpers
    def isarr(self, v): return isinstance(v, Arr)
    def to_arr(self, v, copy=False):
        """array-like -> Arr or Num (Num stays scalar)"""
        it = self.it
        if isinstance(v, Phi):
            return it.lift(lambda x: self.to_arr(x, copy), v)
        if isinstance(v, Num): return v
        if isinstance(v, Arr):
            if copy:
                r = it.arr(dict(it.content(v)), v.shape); r.dt = v.dt; return r
            return v
        if isinstance(v, (Tup, Lst, Inst)) or isinstance(v, AbsIter):
            ai = v if isinstance(v, AbsIter) else (it.obj(v).get('abs') if isinstance(v, Ref) else None)
            if ai is not None:
                idx = it.loop_index(ai.axis)
                e = self.to_arr(ai.elem(idx))
                if isinstance(e, Num): c, sh = {(): e.node}, ()
                elif isinstance(e, Arr): c, sh = it.content(e), e.shape
                else: return Unk('array of ' + type(e).__name__)
                return it.arr({k: it.unlane(n, ai.axis, idx) for k, n in c.items()}, (ai.axis,) + tuple(sh))
            items = it.seq(v)
            if not items: return it.arr({}, (0,))
            if any(isinstance(x, Phi) and (x.a is UNDEF or x.b is UNDEF) for x in items): return Unk('optional element in array')
            es = [self.to_arr(x) for x in items]
            if any(not isinstance(x, (Num, Arr)) for x in es): return Unk('array of objects')
            return self.stack(es)
        if isinstance(v, PyC): return v
        return v
    def stack(self, es):
        it = self.it
        shapes = [e.shape if isinstance(e, Arr) else () for e in es]
        sh = ()
        for s in shapes: sh = self.bshape(sh, s)
        content = {}
        for i, e in enumerate(es):
            for k, n in self.bcontent(e, sh).items():
                content[(i,) + k] = n
        r = it.arr(content, (len(es),) + tuple(sh))
        ts = [dtypes.typeof(self, e) for e in es]
        if es and any(e.dt is not None for e in es): r.dt = dtypes.combine(ts)
        return r
    def isint(self, n): return isintlike(n)
    def axeq(self, a, b): return a == b
    def same_shape(self, a, b): return tuple(a) == tuple(b)
    def bshape(self, a, b, quiet=False):
        """numpy broadcasting"""
        if a == b: return tuple(a)
        a, b = list(a), list(b)
        n = max(len(a), len(b))
        out = []
        for i in range(1, n+1):
            x = a[-i] if i <= len(a) else None
            y = b[-i] if i <= len(b) else None
            if x is None: out.append(y)
            elif y is None: out.append(x)
            elif x == y: out.append(x)
            elif x == 1: out.append(y)
            elif y == 1: out.append(x)
            else:
                # 'P' stands for a whole shape
                if not quiet: self.it.issue('shape', detail='operands have different shapes %s and %s' % (fmt(a), fmt(b)), sa=tuple(a), sb=tuple(b))
                if isinstance(x, int) and isinstance(y, int) and not quiet:
                    self.it.event('raise', exc='ValueError'); raise PathDead()
                out.append(x)
        return tuple(out[::-1])
    def bcontent(self, v, shape):
        """content of v broadcast to shape: keys over concrete axes of shape"""
        it = self.it
        if isinstance(v, Num): c, sh = {(): v.node}, ()
        else: c, sh = it.content(v), v.shape
        if tuple(sh) == tuple(shape): return c
        conc = [(i, a) for i, a in enumerate(shape) if isinstance(a, int)]
        off = len(shape) - len(sh)
        import itertools
        out = {}
        for key in itertools.product(*[range(a) for _, a in conc]):
            full = {i: k for (i, _), k in zip(conc, key)}
            kk = []
            for j, a in enumerate(sh):
                if isinstance(a, int):
                    if a == 1: kk.append(0)
                    else: kk.append(full.get(j + off, 0))
            kk = tuple(kk)
            if kk in c: out[key] = c[kk]
            elif c: out[key] = it.g.mk('unk', (), 'broadcast')
        return out
    def nodes(self, v):
        if isinstance(v, Num): return [v.node]
        if isinstance(v, Arr): return list(self.it.content(v).values())
        if isinstance(v, (Tup,)): return [n for x in v.items for n in self.nodes(x)]
        if isinstance(v, Phi): return [v.c] + self.nodes(v.a) + self.nodes(v.b)
        if isinstance(v, Ref):
            o = self.it.obj(v)
            if o['kind'] == 'dict': return [n for x in o['d'].values() for n in self.nodes(x)]
            if o.get('abs') is not None:
                return self.nodes(o['abs'].elem(self.it.loop_index(o['abs'].axis)))
            return [n for x in o.get('items', []) for n in self.nodes(x)]
        if isinstance(v, ExtObj): return [n for a in v.args for n in self.nodes(a)] + list(getattr(v, 'ns', []))
        return []

    # ------------------------------------------------------------ elementwise
    def unary(self, f, v):
        it = self.it
        def go(v):
            v = self.to_arr(v)
            if isinstance(v, Num): return Num(f(v.node))
            if isinstance(v, Arr): return it.arr({k: f(n) for k, n in it.content(v).items()}, v.shape)
            if isinstance(v, Unk): return v
            if isinstance(v, ExtObj): return self.opaque_result('unary', [v], {})
            return Unk('unary on %s' % type(v).__name__)
        return it.lift(go, v)
    def binary(self, f, a, b):
        it = self.it
        def go(a, b):
            a, b = self.to_arr(a), self.to_arr(b)
            if isinstance(a, Num) and isinstance(b, Num): return Num(f(a.node, b.node))
            if isinstance(a, (Num, Arr)) and isinstance(b, (Num, Arr)):
                sa = a.shape if isinstance(a, Arr) else ()
                sb = b.shape if isinstance(b, Arr) else ()
                sh = self.bshape(sa, sb)
                ca, cb = self.bcontent(a, sh), self.bcontent(b, sh)
                return it.arr({k: f(ca[k], cb[k]) for k in ca if k in cb}, sh)
            if isinstance(a, PyC) or isinstance(b, PyC):
                # None in arithmetic: raises TypeError
                bad = a if isinstance(a, PyC) else b
                it.event('noneop', detail='arithmetic on %r' % (bad.v,))
                return Unk('arithmetic on %r' % (bad.v,))
            ns = self.nodes(a) + self.nodes(b)
            if isinstance(a, ExtObj) or isinstance(b, ExtObj):
                sh = a.shape if isinstance(a, Arr) else b.shape if isinstance(b, Arr) else ()
                n = it.g.mk('call', tuple(ns), 'opaque arithmetic')
                return it.arr(n, tuple(x for x in sh if not isinstance(x, int))) if sh else Num(n)
            for v in (a, b):
                if isinstance(v, Unk): return v
            return Unk('arithmetic on %s' % type(a).__name__)
        return it.lift(go, a, b)
    def binop(self, op, a, b):
        g, it = self.g, self.it
        if op == 'MatMult': return self.dot([a, b], {})
        # sequences and strings
        if isinstance(a, PyC) and isinstance(a.v, str):
            c = self.concrete(b)
            if c is not None:
                try:
                    if op == 'Mod': return PyC(a.v % c[0])
                    if op == 'Mult': return PyC(a.v * c[0])
                    if op == 'Add' and isinstance(c[0], str): return PyC(a.v + c[0])
                except Exception: return Unk('str')
            return Unk('str')
        if isinstance(b, PyC) and isinstance(b.v, str): return Unk('str')
        if isinstance(a, Unk) and a.why == 'str' or isinstance(b, Unk) and b.why == 'str': return Unk('str')
        if op == 'Add' and isinstance(a, Tup) and isinstance(b, Tup): return Tup(a.items + b.items)
        if op == 'Add' and isinstance(a, Lst) and isinstance(b, (Lst, Inst)):
            try: return it.lst(it.seq(a) + it.seq(b))
            except Unsupported: return it.unsup('list concatenation')
        if op == 'Mult' and isinstance(a, (Lst, Tup)) and isinstance(b, Num) and g.cval(b.node) is not None:
            items = it.seq(a) * int(g.cval(b.node))
            return it.lst(items) if isinstance(a, Lst) else Tup(items)
        if op == 'Mult' and isinstance(b, (Lst, Tup)) and isinstance(a, Num): return self.binop(op, b, a)
        if isinstance(a, Lst) and isinstance(b, Num) and op == 'Mult': return it.unsup('list*n')
        f = {'Add': g.add, 'Sub': g.sub, 'Mult': g.mul, 'Div': g.div, 'Pow': g.pow,
             'FloorDiv': lambda x, y: g.fn('floordiv', x, y), 'Mod': lambda x, y: g.fn('mod', x, y),
             'BitAnd': g.and_, 'BitOr': g.or_, 'BitXor': lambda x, y: g.or_(g.and_(x, g.not_(y)), g.and_(y, g.not_(x))),
             'LShift': lambda x, y: g.fn('shl', x, y), 'RShift': lambda x, y: g.fn('shr', x, y)}[op]
        return self.binary(f, a, b)
    def compare(self, op, a, b):
        g, it = self.g, self.it
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            if r is None: n = g.mk('is', tuple(self.nodes(a) + self.nodes(b)), None)
            else: n = g.const(r)
            return Num(n if op == 'Is' else g.not_(n))
        if op in ('In', 'NotIn'):
            n = self.contains(a, b)
            return Num(n if op == 'In' else g.not_(n))
        sym = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
        if isinstance(a, PyC) and isinstance(b, PyC):
            if sym == '==': return it.num(a.v == b.v)
            if sym == '!=': return it.num(a.v != b.v)
            return Unk('cmp')
        if isinstance(a, PyC) or isinstance(b, PyC):
            o = b if isinstance(a, PyC) else a
            if isinstance(o, Unk) or isinstance(o, ExtObj): return Num(g.mk('unk', (), 'compare with unknown'))
            if isinstance(o, Arr):
                return self.unary(lambda n: g.const(sym == '!='), o)
            if sym in ('==', '!='): return it.num(sym == '!=')
            it.event('noneop', detail='ordering comparison with %r' % ((a if isinstance(a, PyC) else b).v,))
            return Unk('ordering with None')
        if isinstance(a, (Tup, Lst)) and isinstance(b, (Tup, Lst)) and sym in ('==', '!='):
            n = self.seqeq(a, b)
            return Num(n if sym == '==' else g.not_(n))
        if isinstance(a, (Unk, ExtObj)) or isinstance(b, (Unk, ExtObj)):
            return Num(g.mk('unk', tuple(self.nodes(a) + self.nodes(b)), 'compare'))
        if isinstance(a, (Tup, Lst)) and isinstance(b, (Num, Arr)) or isinstance(b, (Tup, Lst)) and isinstance(a, (Num, Arr)):
            if isinstance(a, Tup) or isinstance(b, Tup):
                if isinstance(a, Num) or isinstance(b, Num): return it.num(sym == '!=')
        if not isinstance(a, (Num, Arr, Tup, Lst)) or not isinstance(b, (Num, Arr, Tup, Lst)):
            if sym in ('==', '!='): return it.num((a is b) == (sym == '=='))
            return Num(g.mk('unk', (), 'compare'))
        return self.binary(lambda x, y: g.cmp(sym, x, y), a, b)
    def seqeq(self, a, b):
        g, it = self.g, self.it
        try: x, y = it.seq(a), it.seq(b)
        except Unsupported: return g.mk('unk', (), 'sequence comparison')
        # shape tuples: 'P' may stand for several dimensions
        if len(x) != len(y): return g.const(False)
        r = g.const(True)
        for p, q in zip(x, y):
            if isinstance(p, (Tup, Lst)) and isinstance(q, (Tup, Lst)): r = g.and_(r, self.seqeq(p, q)); continue
            c = self.compare('Eq', p, q)
            r = g.and_(r, it.truth(c))
        return r
    def is_(self, a, b):
        if isinstance(a, PyC) and isinstance(b, PyC): return a.v is b.v or (a.v == b.v and isinstance(a.v, str))
        if isinstance(a, PyC) or isinstance(b, PyC):
            o = b if isinstance(a, PyC) else a
            if isinstance(o, (Unk, ExtObj)): return None
            return False
        if isinstance(a, Num) and isinstance(b, Num):
            ca, cb = self.g.cval(a.node), self.g.cval(b.node)
            if isinstance(ca, bool) and isinstance(cb, bool): return ca == cb
            if a.node is b.node and a.node.op == 'const': return True
            return None
        if isinstance(a, Ref) and isinstance(b, Ref): return a.oid == b.oid
        if isinstance(a, Arr) and isinstance(b, Arr): return a.cell == b.cell
        if type(a) is not type(b): return False
        return a is b
    def contains(self, a, b):
        g, it = self.g, self.it
        if isinstance(b, Dct):
            return g.const(it.hkey(a) in it.obj(b)['d'])
        if isinstance(b, PyC) and isinstance(b.v, str) and isinstance(a, PyC): return g.const(a.v in b.v)
        try: items = it.seq(b)
        except Unsupported: return g.mk('unk', (), 'membership')
        r = g.const(False)
        for x in items:
            r = g.or_(r, it.truth(self.compare('Eq', a, x)))
        return r

    # ------------------------------------------------------------ indexing
    def shape_tuple(self, v):
        it = self.it
        sh = v.shape if isinstance(v, Arr) else ()
        return Tup([Num(it.dim(a)) for a in sh])
    def parse_shape(self, v):
        """value -> tuple of axes, or None"""
        it, g = self.it, self.g
        if isinstance(v, Num): return (it.axis_of(v.node),)
        if isinstance(v, (Tup, Lst)):
            out = []
            for x in it.seq(v):
                if isinstance(x, Num): out.append(it.axis_of(x.node))
                else: return None
            return tuple(out)
        if isinstance(v, Arr):
            if len(v.shape) == 0: return (it.axis_of(list(it.content(v).values())[0]),)
            if len(v.shape) == 1 and isinstance(v.shape[0], int):
                c = it.content(v)
                return tuple(it.axis_of(c[(i,)]) for i in range(v.shape[0]))
        return None
    def getitem(self, b, i, view=True):
        r = self.getitem_(b, i)
        if view and isinstance(b, Arr) and isinstance(r, Arr) and r.cell != b.cell and r.cell in self.viewcells:
            self.viewcells.discard(r.cell)
            self.it.view_index(r, b, i)
        return r
    def getitem_(self, b, i):
        it, g = self.it, self.g
        if isinstance(b, Num):
            if isinstance(i, Tup) and not i.items: return b
            if isinstance(i, PyC) and i.v is Ellipsis: return b
            if isinstance(i, PyC) and i.v is None: return it.arr(b.node, (1,))
            if isinstance(i, (Arr, Num)) and self.isboolv(i): return b
            it.issue('index0', detail='indexing a scalar')
            return b
        idx = i.items if isinstance(i, Tup) else [i]
        return self._index(b, idx)
    def isboolv(self, v):
        if isinstance(v, Num): n = v.node
        elif isinstance(v, Arr):
            c = it_content = self.it.content(v)
            if not c: return False
            n = list(c.values())[0]
        else: return False
        return self.isbooln(n)
    def isbooln(self, n, d=0):
        if n.op in ('bool', 'cmp', 'not', 'and', 'or'): return True
        if n.op == 'fn' and n.attr in ('isnan', 'isinf', 'isfinite'): return True
        if n.op == 'sel' and d < 6: return self.isbooln(n.args[1], d+1) and self.isbooln(n.args[2], d+1)
        if n.op == 'input' and n.attr and n.attr[0] == 'bool': return True
        if n.op in ('at', 'outer', 'last') and d < 6: return self.isbooln(n.args[0], d+1)
        if n.op == 'mu' and n.args and d < 3: return self.isbooln(n.args[0], d+1)
        return False
    def expand(self, shape, idx):
        """normalise index list against shape: handles Ellipsis, None; returns list of (kind, axis, index)"""
        out = []
        nreal = 0
        for x in idx:
            if isinstance(x, PyC) and x.v in (None, Ellipsis): continue
            if isinstance(x, Arr) and self.isboolv(x): nreal += max(1, len(x.shape))
            else: nreal += 1
        pos = 0
        seen_ell = False
        for x in idx:
            if isinstance(x, PyC) and x.v is Ellipsis:
                k = len(shape) - nreal
                for _ in range(k): out.append(('full', pos, None)); pos += 1
                seen_ell = True
            elif isinstance(x, PyC) and x.v is None:
                out.append(('new', None, None))
            elif isinstance(x, Arr) and self.isboolv(x):
                k = max(1, len(x.shape))
                out.append(('mask', (pos, k), x)); pos += k
            elif isinstance(x, Slice):
                if x.lo is None and x.hi is None and (x.st is None): out.append(('full', pos, None))
                else: out.append(('slice', pos, x))
                pos += 1
            elif isinstance(x, (Num,)):
                out.append(('int', pos, x.node)); pos += 1
            elif isinstance(x, (Arr, Lst, Tup)):
                v = self.to_arr(x)
                if isinstance(v, Arr) and v.shape == (): out.append(('int', pos, list(self.it.content(v).values())[0]))
                else: out.append(('fancy', pos, v))
                pos += 1
            else:
                out.append(('unk', pos, x)); pos += 1
        while pos < len(shape):
            out.append(('full', pos, None)); pos += 1
        return out
    def slice_c(self, s):
        """constant slice bounds or None"""
        g = self.g
        r = []
        for x in (s.lo, s.hi, s.st):
            if x is None or (isinstance(x, PyC) and x.v is None): r.append(None)
            elif isinstance(x, Num) and g.cval(x.node) is not None: r.append(int(g.cval(x.node)))
            else: return None
        return slice(*r)
    def _index(self, b, idx):
        it, g = self.it, self.g
        shape = b.shape
        plan = self.expand(shape, idx)
        if any(p[0] != 'new' and p[1] is not None and (p[1][0]+p[1][1] if p[0] == 'mask' else p[1]+1) > len(shape) for p in plan):
            if any(p[0] == 'mask' for p in plan) and 'P' in [s for s in shape]:
                pass
            it.issue('index', detail='too many indices for shape %s' % fmt(shape))
            return Unk('index')
        content = it.content(b)
        conc = [k for k, a in enumerate(shape) if isinstance(a, int)]
        # build result axes and key selectors
        newshape = []
        sel = {}          # concrete axis pos -> ('int',k) | ('keep', list of source ks)
        nodeops = []      # applied to node in order
        for kind, pos, x in plan:
            if kind == 'new': newshape.append((1, ('one',)))
            elif kind == 'full': newshape.append((shape[pos], ('ax', pos)))
            elif kind == 'mask':
                p, k = pos
                axs = shape[p:p+k]
                msh = x.shape
                if tuple(axs) != tuple(msh):
                    if msh == ():
                        return b
                    it.issue('mask', detail='mask of shape %s applied to axes %s' % (fmt(msh), fmt(axs)), sa=tuple(axs), sb=tuple(msh))
                if all(isinstance(a, int) for a in axs):
                    # boolean mask over concrete elements: only decided masks
                    mc = it.content(x)
                    vals = [g.cval(n) for n in mc.values()]
                    if k == 1 and all(isinstance(v, bool) for v in vals):
                        keep = [kk[0] for kk, n in sorted(mc.items()) if g.cval(n)]
                        newshape.append((len(keep), ('keep', p, keep)))
                        continue
                    it.unsup('undecided mask over small array'); return Unk('mask')
                mn = self.single(it.content(x))
                axis = ('sub', tuple(axs), mn.id)
                newshape.append((axis, ('ax', p)))
            elif kind == 'int':
                a = shape[pos]
                if isinstance(a, int):
                    c = g.cval(x)
                    if c is None:
                        sel[pos] = ('sym', x)
                    else:
                        c = int(c)
                        if c >= a or c < -a:
                            it.event('raise', exc='IndexError'); it.issue('index', detail='index %d out of range for axis of length %d' % (c, a))
                            raise PathDead()
                        sel[pos] = ('int', c % a)
                else:
                    nodeops.append(('at', x, pos))
            elif kind == 'slice':
                a = shape[pos]
                sc = self.slice_c(x)
                if isinstance(a, int) and sc is not None:
                    keep = list(range(a))[sc]
                    newshape.append((len(keep), ('keep', pos, keep)))
                elif isinstance(a, int):
                    it.unsup('symbolic slice of small axis'); return Unk('slice')
                else:
                    key = (sc.start, sc.stop, sc.step) if sc is not None else tuple(None if q is None or isinstance(q, PyC) else q.node.id for q in (x.lo, x.hi, x.st)) + ('s',)
                    if sc is not None and sc.start is None and sc.stop is None and sc.step == -1:
                        newax = a
                    elif sc is not None and sc.step == -1 and sc.start == -1 and sc.stop is None:
                        newax = a; key = (None, None, -1)
                    elif sc is not None and sc.start in (0, None) and sc.stop is None and sc.step in (1, None):
                        newshape.append((a, ('ax', pos))); continue
                    else:
                        newax = self.slaxis(a, key)
                    args = tuple(q.node for q in (x.lo, x.hi, x.st) if isinstance(q, Num) and g.cval(q.node) is None)
                    nodeops.append(('slice', (key, a), args))
                    newshape.append((newax, ('ax', pos)))
            elif kind == 'fancy':
                if not isinstance(x, Arr): return Unk('fancy index')
                a = shape[pos]
                if isinstance(a, int):
                    xc = it.content(x)
                    if len(x.shape) == 1 and isinstance(x.shape[0], int) and all(g.cval(n) is not None for n in xc.values()):
                        keep = [int(g.cval(xc[(q,)])) % a for q in range(x.shape[0])]
                        newshape.append((len(keep), ('keep', pos, keep))); continue
                    it.unsup('fancy index on small axis'); return Unk('fancy')
                n = self.single(it.content(x))
                nodeops.append(('gather', n, a))
                for ax in x.shape: newshape.append((ax, ('ax', pos)))
            else:
                if isinstance(x, Phi): return it.lift(lambda q: self._index(b, [q if z is x else z for z in idx]), x)
                it.unsup('index of type %s' % type(x).__name__); return Unk('index')
        # keys
        import itertools
        rshape = tuple(a for a, _ in newshape)
        rconc = [(j, info) for j, (a, info) in enumerate(newshape) if isinstance(a, int)]
        out = {}
        def nodeof(n):
            for o in nodeops:
                if o[0] == 'at':
                    n = g.at(n, o[1])
                    if n.op == 'at': it.atax.setdefault(n.id, set()).add(shape[o[2]])
                elif o[0] == 'slice': n = n if n.op in ('const', 'bool') else self.mkslice(n, o[1], o[2])
                elif o[0] == 'gather': n = n if n.op in ('const', 'bool') else self.mkgather(n, o[1], o[2])
            return n
        symsel = [p for p in sel if sel[p][0] == 'sym']
        for key in itertools.product(*[range(newshape[j][0]) for j, _ in rconc]):
            src = {}
            for (j, info), k in zip(rconc, key):
                if info[0] == 'ax': src[info[1]] = k
                elif info[0] == 'keep': src[info[1]] = info[2][k]
            for p, s in sel.items():
                if s[0] == 'int': src[p] = s[1]
            if not symsel:
                kk = tuple(src[p] for p in conc)
                if kk not in content: return Unk('index')
                out[key] = nodeof(content[kk])
            else:
                p = symsel[0]
                r = None
                for q in range(shape[p]-1, -1, -1):
                    src[p] = q
                    kk = tuple(src[z] for z in conc)
                    r = nodeof(content[kk]) if r is None else g.sel(g.cmp('==', sel[p][1], g.const(q)), nodeof(content[kk]), r)
                out[key] = r
        view = all(k in ('full', 'slice', 'int', 'new') for k, _, _ in plan)
        if rshape == ():
            return Num(out[()])
        r = it.arr(out, rshape, it.cellorigin.get(b.cell, ()) if view else ())
        if view: self.viewcells.add(r.cell)
        return r
    def mkslice(self, n, attr, args):
        g = self.g
        key, a = attr
        if key == (None, None, -1):
            if n.op == 'rev' and n.attr == a: return n.args[0]
            return g.mk('rev', (n,), a)
        return g.mk('slice', (n,) + tuple(args), (key, a))
    def mkgather(self, n, idx, a):
        g, it = self.g, self.it
        if idx.op == 'iota' and idx.attr == a: return n
        # reversal written as a fancy index
        if idx is g.add(g.sub(it.dim(a), g.const(1)), g.neg(g.mk('iota', (), a))):
            return self.mkslice(n, ((None, None, -1), a), ())
        return g.mk('gather', (n, idx), a)
    def slaxis(self, a, key):
        if len(key) == 3 and key[2] in (None, 1):
            lo, hi = key[0] or 0, key[1] or 0
            if lo >= 0 and hi <= 0:
                base, cut = (a[1], a[2]) if isinstance(a, tuple) and a[0] == 'shorter' else (a, 0)
                return ('shorter', base, cut + lo - hi)
        return ('sl', a, key)
    def single(self, c):
        return list(c.values())[0]
    def setitem(self, b, i, v):
        it, g = self.it, self.g
        idx = i.items if isinstance(i, Tup) else [i]
        if any(isinstance(x, Phi) for x in idx):
            it.unsup('store at undecided index'); return
        it.write_event(b, 'store')
        v = self.to_arr(v)
        if isinstance(v, Lst): v = self.to_arr(v)
        if isinstance(v, ExtObj):
            v = Num(g.mk('call', tuple(self.nodes(v)), v.name))
        if not isinstance(v, (Num, Arr)):
            if isinstance(v, PyC): it.event('noneop', detail='storing %r into an array' % (v.v,))
            v = Num(g.mk('unk', (), getattr(v, 'why', 'stored value')))
        shape = b.shape
        plan = self.expand(shape, idx)
        content = dict(it.content(b))
        vs = v.shape if isinstance(v, Arr) else ()
        # target sub-shape
        tshape = []
        conds = None
        for kind, pos, x in plan:
            if kind == 'full': tshape.append((shape[pos], ('ax', pos)))
            elif kind == 'new': tshape.append((1, ('one',)))
            elif kind == 'mask':
                p, k = pos
                axs = tuple(shape[p:p+k])
                if x.shape != axs and x.shape != ():
                    it.issue('mask', detail='mask of shape %s used to assign into axes %s' % (fmt(x.shape), fmt(axs)), sa=axs, sb=tuple(x.shape))
                if all(isinstance(a, int) for a in axs) and axs:
                    tshape.append((('concmask', p), ('cmask', p, x)))
                else:
                    mn = self.single(it.content(x))
                    tshape.append((('sub', axs, mn.id) if axs else 1, ('mask', p, mn)))
            elif kind == 'int': pass
            elif kind == 'slice':
                sc = self.slice_c(x)
                if isinstance(shape[pos], int) and sc is not None:
                    keep = list(range(shape[pos]))[sc]
                    tshape.append((len(keep), ('keep', pos, keep)))
                else:
                    key = (sc.start, sc.stop, sc.step) if sc is not None else ('sym',)
                    tshape.append((self.slaxis(shape[pos], key) if len(key) == 3 else ('sl', shape[pos], key), ('slice', pos, key, x)))
            elif kind == 'fancy':
                if isinstance(x, Arr) and isinstance(shape[pos], int) and len(x.shape) == 1 and isinstance(x.shape[0], int):
                    keep = [int(g.cval(n)) for n in it.content(x).values()] if all(g.cval(n) is not None for n in it.content(x).values()) else None
                    if keep is None: it.unsup('fancy store'); return
                    tshape.append((len(keep), ('keep', pos, keep)))
                elif isinstance(x, Arr):
                    for ax in x.shape: tshape.append((ax, ('fancy', pos, self.single(it.content(x)))))
                else: it.unsup('fancy store'); return
            else:
                it.unsup('store index of type %s' % type(x).__name__); return
        ts = tuple(a for a, _ in tshape)
        # shape conformity of the stored value
        if vs and not any(isinstance(a, tuple) and a[:1] == ('concmask',) for a in ts):
            x, y = list(vs), list(ts)
            while x and len(x) > len(y) and x[0] == 1: x.pop(0)
            ok = len(x) <= len(y)
            if ok:
                for p, q in zip(x[::-1], y[::-1]):
                    if p != q and p != 1: ok = False
            if not ok and not (all(q == 1 for q in vs)):
                it.issue('store', detail='value of shape %s stored into %s' % (fmt(vs), fmt(ts)), sa=tuple(ts), sb=tuple(vs))
        # apply
        conc = [k for k, a in enumerate(shape) if isinstance(a, int)]
        import itertools
        newc = {}
        for key, old in content.items():
            src = dict(zip(conc, key))
            # does this key belong to the target, and which value key
            hit = True; vkey = {}
            condsel = []
            ops = []
            for j, (a, info) in enumerate(tshape):
                if info[0] == 'ax' and isinstance(a, int): vkey[j] = src[info[1]]
                elif info[0] == 'keep':
                    if src[info[1]] in info[2]: vkey[j] = info[2].index(src[info[1]])
                    else: hit = False
                elif info[0] == 'mask': ops.append(('mask', info[2]))
                elif info[0] == 'cmask':
                    mk = it.content(info[2])
                    kk = (src[info[1]],) if len(info[2].shape) == 1 else tuple(src[q] for q in range(info[1], info[1] + len(info[2].shape)))
                    ops.append(('mask', mk[kk]))
                elif info[0] == 'slice': ops.append(('slice', info[2], info[3], shape[info[1]]))
                elif info[0] == 'fancy': ops.append(('fancy', info[2]))
            for kind, pos, x in plan:
                if kind == 'int':
                    if isinstance(shape[pos], int):
                        c = g.cval(x)
                        if c is None: ops.append(('mask', g.cmp('==', x, g.const(src[pos]))))
                        elif int(c) % shape[pos] != src[pos]: hit = False
                        if c is not None and not (-shape[pos] <= c < shape[pos]):
                            it.issue('index', detail='index %d out of range for axis of length %d' % (c, shape[pos]))
                            it.event('raise', exc='IndexError'); raise PathDead()
                    else: ops.append(('at', x))
            if not hit:
                newc[key] = old; continue
            # value
            if isinstance(v, Num): vn = v.node
            else:
                vc = it.content(v)
                kk = []
                off = len(ts) - len(vs)
                for q, a in enumerate(vs):
                    if isinstance(a, int):
                        if a == 1: kk.append(0)
                        else: kk.append(vkey.get(q + off, 0))
                vn = vc.get(tuple(kk))
                if vn is None: vn = g.mk('unk', (), 'stored value')
            newc[key] = nw = self.apply_store(old, ops, vn)
            if nw.op in ('upd', 'updx', 'updf'):
                it.atax.setdefault(nw.id, set()).update(shape[q] for kd, q, _ in plan if kd in ('int', 'fancy') and not isinstance(shape[q], int))
        it.set_content(b, newc)
    def apply_store(self, old, ops, vn):
        g = self.g
        if not ops: return vn
        if len(ops) == 1:
            o = ops[0]
            if o[0] == 'mask': return g.sel(o[1], vn, old)
            if o[0] == 'at': return g.upd(old, o[1], vn)
            if o[0] == 'slice':
                key = o[1]
                if key == (None, None, None): return vn
                if key == (None, None, -1): return self.mkslice(vn, (key, o[3]), ())
                args = tuple(q.node for q in (o[2].lo, o[2].hi, o[2].st) if isinstance(q, Num) and g.cval(q.node) is None)
                return g.mk('updsl', (old, vn) + args, (key, o[3]))
            if o[0] == 'fancy': return g.mk('updf', (old, o[1], vn))
        if all(o[0] == 'mask' for o in ops):
            c = g.const(True)
            for o in ops: c = g.and_(c, o[1])
            return g.sel(c, vn, old)
        if all(o[0] in ('at', 'mask') for o in ops):
            # multi-index element store
            ats = [o[1] for o in ops if o[0] == 'at']
            ms = [o[1] for o in ops if o[0] == 'mask']
            if len(ats) == 1:
                cur = g.at(old, ats[0])
                for m in ms: vn = g.sel(m, vn, cur)
                return g.upd(old, ats[0], vn)
            # nested: x[i,j]=v  ->  upd(x,i,upd(at(x,i),j,v))
            i, rest = ops[0], ops[1:]
            if i[0] == 'at':
                return g.upd(old, i[1], self.apply_store(g.at(old, i[1]), rest, vn))
        return g.mk('updx', (old, vn) + tuple(o[1] for o in ops if hasattr(o[1], 'op')), repr([o[0] for o in ops]))

    # ------------------------------------------------------------ attributes of values
    def val_attr(self, b, name):
        it, g = self.it, self.g
        if isinstance(b, (Arr, Num)):
            if name == 'shape': return self.shape_tuple(b)
            if name == 'size':
                n = g.const(1)
                for a in (b.shape if isinstance(b, Arr) else ()): n = g.mul(n, it.dim(a))
                return Num(n)
            if name == 'ndim':
                sh = b.shape if isinstance(b, Arr) else ()
                if any(a == 'P' for a in sh) and 'Q' not in sh: return Num(g.mk('ndim', (), tuple(sh)))
                return it.num(len(sh))
            if name == 'T': return self.transpose(b)
            if name == 'flat': return self.ravel(b)
            if name in ('real',): return b
            if name in ('dtype',):
                e = ExtObj('dtype'); e.src = b; return e
            return Method(b, name)
        if isinstance(b, (Lst, Dct, Tup, PyC)): return Method(b, name)
        if isinstance(b, ExtObj):
            if name in getattr(b, 'fields', {}): return b.fields[name]
            return Method(b, name)
        if isinstance(b, AbsIter): return Method(b, name)
        if isinstance(b, Unk): return b
        return Method(b, name)
    def ext_attr(self, b, name):
        full = b.name + '.' + name
        it = self.it
        c = CONST.get(full)
        if c is not None: return it.num(c)
        if full in ('numpy.newaxis',): return NONE
        if full.startswith('numpy.float') or full.startswith('numpy.int') or full in ('numpy.bool_', 'numpy.complex128'): return Ext(full)
        return Ext(full)
    def transpose(self, b, axes=None):
        it = self.it
        if isinstance(b, Num): return b
        n = len(b.shape)
        if n < 2: return b
        perm = axes or list(range(n))[::-1]
        conc = [k for k, a in enumerate(b.shape) if isinstance(a, int)]
        newshape = tuple(b.shape[p] for p in perm)
        nconc = [p for p in perm if isinstance(b.shape[p], int)]
        out = {}
        for key, nd in it.content(b).items():
            src = dict(zip(conc, key))
            out[tuple(src[p] for p in nconc)] = nd
        r = it.arr(out, newshape, it.cellorigin.get(b.cell, ()))
        inv = {}
        for key in it.content(b):
            src = dict(zip(conc, key)); inv[tuple(src[p] for p in nconc)] = key
        return it.view_map(r, b, inv)
    def ravel(self, v, copy=False):
        it = self.it
        v = self.to_arr(v)
        if isinstance(v, Num): return it.arr(v.node, (1,))
        if not isinstance(v, Arr): return v
        return self.reshape(v, (-1,), copy)
    def reshape(self, v, sh, copy=False):
        it, g = self.it, self.g
        v = self.to_arr(v)
        if isinstance(v, Num): v = it.arr(v.node, ())
        if not isinstance(v, Arr): return v
        src = v.shape
        sh = tuple(sh)
        if any(a == -1 for a in sh):
            known = [a for a in sh if a != -1]
            rest = list(src)
            ok = True
            for a in known:
                if a == 1: continue
                if a in rest: rest.remove(a)
                elif isinstance(a, int):
                    # consume from product of concrete axes
                    p = 1
                    for q in rest:
                        if isinstance(q, int): p *= q
                    if p % a == 0:
                        rest = [q for q in rest if not isinstance(q, int)] + ([p // a] if p // a != 1 else [])
                    else: ok = False
                else: ok = False
            rest = [a for a in rest if a != 1]
            if len(rest) == 0: fill = 1
            elif len(rest) == 1: fill = flat(rest[0])
            else:
                if all(isinstance(a, int) for a in rest):
                    fill = 1
                    for a in rest: fill *= a
                else: fill = ('flat',) + tuple(rest)
            sh = tuple(fill if a == -1 else a for a in sh)
        sh2 = sh
        # symbolic axes must agree (P <-> Pf allowed); concrete product must agree
        s1 = [unflat(a) for a in src if not isinstance(a, int)]
        s2 = [unflat(a) for a in sh2 if not isinstance(a, int)]
        p1 = prod([a for a in src if isinstance(a, int)]); p2 = prod([a for a in sh2 if isinstance(a, int)])
        e1, e2 = [], []
        for a in s1: e1 += list(a[1:]) if isinstance(a, tuple) and a[0] == 'flat' else [a]
        for a in s2: e2 += list(a[1:]) if isinstance(a, tuple) and a[0] == 'flat' else [a]
        c1 = prod([a for a in e1 if isinstance(a, int)]) * p1; c2 = prod([a for a in e2 if isinstance(a, int)]) * p2
        f1 = [a for a in e1 if not isinstance(a, int)]; f2 = [a for a in e2 if not isinstance(a, int)]
        if all(isinstance(a, int) for a in src + sh):
            tot, kn = prod(src), prod([a for a in sh if a != -1])
            if (kn == 0 or tot % kn) if -1 in sh else tot != kn:
                it.event('raise', exc='ValueError'); raise PathDead()
        if c1 != c2 or f1 != f2:
            it.issue('reshape', detail='reshape of %s to %s' % (fmt(src), fmt(sh2)), sa=tuple(src), sb=tuple(sh2))
        content = it.content(v)
        n1 = [a for a in src if isinstance(a, int)]
        n2 = [a for a in sh2 if isinstance(a, int)]
        if n1 == n2 and [isinstance(a, int) for a in src if a != 1] == [isinstance(a, int) for a in sh2 if a != 1] or (not n1 and not n2):
            if src == sh2 and not copy: return v
            if copy: return it.arr(dict(content), sh2)
            return Arr(v.cell, sh2)      # a view: same cell
        import itertools
        if prod(n1) == prod(n2):
            k1 = list(itertools.product(*[range(a) for a in n1])); k2 = list(itertools.product(*[range(a) for a in n2]))
            if all(k in content for k in k1):
                r = it.arr({b: content[a] for a, b in zip(k1, k2)}, sh2, () if copy else it.cellorigin.get(v.cell, ()))
                return r if copy else it.view_map(r, v, dict(zip(k2, k1)))
        ns = tuple(content.values())
        return it.arr({k: g.mk('unk', ns, 'reshape') for k in itertools.product(*[range(a) for a in n2])}, sh2)

    # ------------------------------------------------------------ reductions
    def reduce(self, name, v, axis=None, keepdims=False):
        it, g = self.it, self.g
        v = self.to_arr(v)
        if isinstance(v, Num):
            return v if name in ('sum', 'max', 'min', 'mean', 'prod', 'any', 'all', 'median') else Num(g.mk('red', (v.node,), (name, ())))
        if isinstance(v, Unk): return v
        if not isinstance(v, Arr): return self.opaque_result(name, [v], {})
        axes = list(range(len(v.shape))) if axis is None else [a % len(v.shape) for a in (axis if isinstance(axis, (list, tuple)) else [axis])]
        content = it.content(v)
        conc = [k for k, a in enumerate(v.shape) if isinstance(a, int)]
        rest = [k for k in range(len(v.shape)) if k not in axes]
        out = {}
        symred = tuple(v.shape[k] for k in axes if not isinstance(v.shape[k], int))
        groups = {}
        for key, n in sorted(content.items()):
            src = dict(zip(conc, key))
            rk = tuple(src[k] for k in rest if isinstance(v.shape[k], int))
            groups.setdefault(rk, []).append(n)
        cnt = prod([v.shape[k] for k in axes if isinstance(v.shape[k], int)])
        for rk, ns in groups.items():
            if symred:
                ns = [g.mk('red', (n,) + self.maskargs(symred), (name, symred)) for n in ns]
            r = ns[0]
            if name in ('sum', 'mean'):
                for n in ns[1:]: r = g.add(r, n)
                if name == 'mean' and cnt > 1: r = g.div(r, g.const(cnt))
            elif name == 'prod':
                for n in ns[1:]: r = g.mul(r, n)
            elif name in ('max', 'min', 'nanmax', 'nanmin'):
                for n in ns[1:]: r = g.fn(name.replace('nan', ''), r, n)
            elif name == 'any':
                for n in ns[1:]: r = g.or_(r, n)
            elif name == 'all':
                for n in ns[1:]: r = g.and_(r, n)
            elif len(ns) > 1:
                r = g.mk('red', tuple(ns), (name, ()))
            out[rk] = r
        sh = tuple(v.shape[k] for k in rest)
        if keepdims:
            sh = tuple(v.shape[k] if k in rest else 1 for k in range(len(v.shape)))
            out = {tuple(self._kd(v.shape, rest, rk)): n for rk, n in out.items()}
        if sh == (): return Num(out[()]) if () in out else it.num(0)
        return it.arr(out, sh)
    def _kd(self, shape, rest, rk):
        rk = list(rk); o = []
        for k, a in enumerate(shape):
            if k in rest:
                if isinstance(a, int): o.append(rk.pop(0))
            else: o.append(0)
        return o
    def maskargs(self, axes):
        g = self.g
        out = []
        byid = None
        for a in axes:
            if isinstance(a, tuple) and a[0] == 'sub':
                if byid is None: byid = {n.id: n for n in g.tab.values()}
                if a[2] in byid: out.append(byid[a[2]])
        return tuple(out)
    def const_axis(self, v):
        if v is None or (isinstance(v, PyC) and v.v is None): return None
        if isinstance(v, Num):
            c = self.g.cval(v.node)
            return None if c is None else int(c)
        if isinstance(v, Tup): return [int(self.g.cval(x.node)) for x in v.items]
        return None
    def dot(self, args, kw):
        it, g = self.it, self.g
        a, b = self.to_arr(args[0]), self.to_arr(args[1])
        def go(a, b):
            if isinstance(a, Num) or isinstance(b, Num): return self.binop('Mult', a, b)
            if not (isinstance(a, Arr) and isinstance(b, Arr)):
                return self.opaque_result('dot', [a, b], {})
            ka = len(a.shape) - 1
            kb = len(b.shape) - 2 if len(b.shape) >= 2 else 0
            if a.shape[ka] != b.shape[kb]:
                it.issue('shape', detail='dot of %s and %s' % (fmt(a.shape), fmt(b.shape)), sa=a.shape, sb=b.shape)
                return Unk('dot')
            n = a.shape[ka]
            sa = a.shape[:ka]; sb = tuple(x for k, x in enumerate(b.shape) if k != kb)
            if isinstance(n, int) and (all(isinstance(x, int) for x in sa) or all(isinstance(x, int) for x in sb)):
                import itertools
                ca, cb = it.content(a), it.content(b)
                out = {}
                sbc = [x for x in sb if isinstance(x, int)]
                for i in itertools.product(*[range(x) for x in sa if isinstance(x, int)]):
                    for j in itertools.product(*[range(x) for x in sbc]):
                        r = g.const(0)
                        for k in range(n):
                            # key for b
                            jj = list(j); kk = []
                            for q, x in enumerate(b.shape):
                                if q == kb: kk.append(k)
                                elif isinstance(x, int): kk.append(jj.pop(0))
                            r = g.add(r, g.mul(ca[i + (k,)], cb[tuple(kk)]))
                        out[i + j] = r
                sh = tuple(sa) + sb
                if sh == (): return Num(out[()])
                return it.arr(out, sh)
            if not isinstance(n, int) and len(a.shape) == 1 and len(b.shape) == 1:
                return Num(g.mk('red', (g.mul(self.single(it.content(a)), self.single(it.content(b))),), ('sum', (n,))))
            return self.opaque_result('dot', [a, b], {})
        return it.lift(go, a, b)
    def cross(self, a, b):
        it, g = self.it, self.g
        a, b = self.to_arr(a), self.to_arr(b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.shape and b.shape and a.shape[-1] == 3 and b.shape[-1] == 3:
            sh = self.bshape(a.shape, b.shape)
            ca, cb = self.bcontent(a, sh), self.bcontent(b, sh)
            out = {}
            for k in ca:
                i = k[-1]; p = k[:-1]
                j, l = (i+1) % 3, (i+2) % 3
                out[k] = g.sub(g.mul(ca[p+(j,)], cb[p+(l,)]), g.mul(ca[p+(l,)], cb[p+(j,)]))
            return it.arr(out, sh)
        return self.opaque_result('cross', [a, b], {})
    def norm(self, v):
        g = self.g
        sq = self.unary(lambda n: g.pow(n, g.const(2)), v)
        s = self.reduce('sum', sq)
        return self.unary(lambda n: g.fn('sqrt', n), s)

    # ------------------------------------------------------------ external calls
    def opaque_result(self, name, args, kw):
        """pure external function: value depends on all arguments elementwise"""
        it, g = self.it, self.g
        if name.split('.')[0] in NUMERIC: taint.note('opaque', name, it.loc())
        ns = []
        sh = ()
        for a in list(args) + [kw[k] for k in sorted(kw)]:
            ns += self.nodes(a)
            if isinstance(a, Arr): sh = self.bshape(sh, a.shape, quiet=True)
        e = ExtObj(name, tuple(args)); e.ns = ns; e.kw = kw
        return e
    def as_value(self, e):
        if isinstance(e, ExtObj):
            return Num(self.g.mk('call', tuple(self.nodes(e)), e.name))
        return e
    def call_ext(self, name, args, kw):
        try: return self.call_ext_(name, args, kw)
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, ZeroDivisionError, AssertionError) as e:
            if os.environ.get('WIZ_STRICT'): raise
            # the model does not cover this use: the value is unknown, and so is every conclusion from it
            return self.it.unsup('%s (%s)' % (name, type(e).__name__))
    def call_ext_(self, name, args, kw):
        it = self.it
        # distribute over Phi arguments
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                return it.lift(lambda x: self.call_ext(name, list(args[:i]) + [x] + list(args[i+1:]), kw), a)
        for k, a in kw.items():
            if isinstance(a, Phi):
                return it.lift(lambda x: self.call_ext(name, args, dict(kw, **{k: x})), a)
        short = name
        for p in ('numpy.linalg.', 'numpy.matlib.', 'numpy.', 'math.', 'scipy.special.', 'scipy.integrate.', 'scipy.interpolate.', 'builtins.', 'scipy.linalg.'):
            if name.startswith(p): short = name[len(p):]; break
        fam = name.split('.')[0]
        it.event('extcall', name=name, args=args, kw=kw)
        if 'out' in kw and isinstance(kw['out'], Arr):
            out = kw['out']; kw2 = dict(kw); del kw2['out']
            where = kw2.pop('where', None)
            r = self.call_ext(name, args, kw2)
            it.write_event(out, 'out= argument')
            if isinstance(r, (Arr, Num)):
                rc = self.bcontent(r, out.shape)
                if where is not None:
                    wc = self.bcontent(self.to_arr(where), out.shape); oc = it.content(out)
                    rc = {k: it.g.sel(wc[k], rc[k], oc[k]) for k in rc}
                it.set_content(out, dict(rc))
            return out
        if fam == 'builtins':
            m = getattr(self, 'b_' + short, None)
            if m: return m(args, kw)
        m = getattr(self, 'n_' + short.replace('.', '_'), None)
        if m is not None and fam in ('numpy', 'scipy', 'math', 'builtins'):
            return m(args, kw)
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is not None: return m(args, kw)
        if fam == 'operator':
            b = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow', 'iadd': 'Add', 'isub': 'Sub', 'imul': 'Mult', 'and_': 'BitAnd', 'or_': 'BitOr', 'xor': 'BitXor', 'mod': 'Mod', 'floordiv': 'FloorDiv'}.get(short.split('.')[-1])
            c = {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}.get(short.split('.')[-1])
            if b and not short.startswith('i'): return it.binop(b, args[0], args[1])
            if c: return self.compare(c, args[0], args[1])
            if short.endswith('neg'): return self.unary(it.g.neg, args[0])
            if short.endswith('matmul'): return self.dot(args, kw)
            if short.endswith('getitem'): return it.getitem(args[0], args[1])
        short = ALIAS.get(short, short)
        if fam in ('numpy', 'math', 'scipy') and short in UNARY and len(args) >= 1:
            if short in ('real',): return args[0]
            return self.unary(lambda n: it.g.fn(short, n), args[0])
        if short in ('ellipk', 'ellipe', 'ellipkm1'):
            return self.unary(lambda n: it.g.fn(short, n), args[0])
        if fam in ('numpy', 'scipy', 'math') and short not in ('save', 'savetxt'):
            # unknown pure numerical function
            e = self.opaque_result(name, args, kw)
            sh = ()
            for a in args:
                if isinstance(a, Arr): sh = self.bshape(sh, a.shape, quiet=True)
            e2 = ExtObj(name, tuple(args)); e2.ns = e.ns
            return e2
        return self.opaque_result(name, args, kw)

    # builtins
    def b_print(self, a, k): return NONE
    def b_len(self, a, k):
        it, g = self.it, self.g
        v = a[0]
        if isinstance(v, Phi): return it.lift(lambda x: self.b_len([x], k), v)
        if isinstance(v, Arr):
            if not v.shape: it.issue('len0', detail='len of a scalar array'); return it.num(1)
            return Num(it.dim(v.shape[0]))
        if isinstance(v, Num):
            it.issue('len0', detail='len() of a scalar'); return it.num(1)
        if isinstance(v, Ref):
            o = it.obj(v)
            if o.get('abs'): return Num(it.dim(o['abs'].axis))
            if o['kind'] == 'dict': return it.num(len(o['d']))
            return it.num(len(o['items']))
        if isinstance(v, Tup): return it.num(len(v.items))
        if isinstance(v, PyC) and isinstance(v.v, str): return it.num(len(v.v))
        if isinstance(v, PyC):
            it.event('noneop', detail='len(%r)' % (v.v,)); return Unk('len of None')
        return Num(g.mk('unk', (), 'len'))
    def b_range(self, a, k): return self.n_arange(a, k)
    def b_enumerate(self, a, k):
        return ExtObj('enumerate', (a[0],) + ((k['start'],) if 'start' in k else tuple(a[1:2])))
    def b_zip(self, a, k): return ExtObj('zip', tuple(a))
    def b_reversed(self, a, k): return ExtObj('reversed', tuple(a))
    def b_iter(self, a, k): return a[0]
    def b_abs(self, a, k): return self.unary(lambda n: self.g.fn('abs', n), a[0])
    def b_float(self, a, k):
        if a and isinstance(a[0], PyC) and a[0].v in ('inf', 'Inf', 'nan'): return self.it.num(float(a[0].v))
        return self.scal(a[0]) if a else self.it.num(0)
    def scal(self, v):
        v = self.to_arr(v)
        if isinstance(v, Arr) and len(self.it.content(v)) == 1: return Num(self.single(self.it.content(v)))
        return v
    def b_int(self, a, k):
        if not a: return self.it.num(0)
        v = self.scal(a[0])
        if isinstance(v, Num) and self.it.g.cval(v.node) is None and isintlike(v.node): return v
        return self.unary(lambda n: self.g.fn('int', n), v)
    def b_bool(self, a, k): return Num(self.it.truth(a[0])) if a else self.it.num(False)
    def b_repr(self, a, k): return Unk("str")
    b_format = b_repr
    def b_isinstance(self, a, k):
        v, c = a[0], a[1]
        it = self.it
        cs = c.items if isinstance(c, Tup) else [c]
        res = []
        for c in cs:
            if isinstance(c, Cls):
                if isinstance(v, Inst): res.append(c in v.cls.mro())
                elif isinstance(v, ExtObj) and v.name == 'anyobject': res.append(None)
                else: res.append(False)
            elif isinstance(c, Ext):
                n = c.name.split('.')[-1]
                if isinstance(v, Num): res.append(n in ('int', 'float', 'number', 'Number', 'floating', 'integer') or None if n in ('int', 'float') else n in ('number', 'Number', 'floating', 'generic'))
                elif isinstance(v, Arr): res.append(n == 'ndarray')
                elif isinstance(v, Lst): res.append(n in ('list', 'Sequence', 'Iterable'))
                elif isinstance(v, Tup): res.append(n in ('tuple', 'Sequence', 'Iterable'))
                elif isinstance(v, PyC): res.append(n == 'str' if isinstance(v.v, str) else False)
                elif isinstance(v, Dct): res.append(n == 'dict')
                elif isinstance(v, Inst): res.append('builtins.' + n in v.cls.ext_bases())
                else: res.append(None)
            else: res.append(None)
        if True in res: return it.num(True)
        if None in res: return Num(it.g.mk('isinst', tuple(self.nodes(v)) or (), repr([getattr(c, 'name', '?') for c in cs])))
        return it.num(False)
    def b_type(self, a, k):
        v = a[0]
        if isinstance(v, Inst): return v.cls
        return Unk('type')
    def b_list(self, a, k):
        it = self.it
        if not a: return it.lst([])
        ai = it.as_iter(a[0])
        if isinstance(ai, list): return it.lst(ai)
        if isinstance(ai, AbsIter):
            l = it.lst([]); it.obj(l)['abs'] = ai; return l
        return it.unsup('list()')
    def b_tuple(self, a, k):
        it = self.it
        if not a: return Tup([])
        try: return Tup(it.seq(a[0]))
        except Unsupported:
            ai = it.as_iter(a[0])
            if isinstance(ai, list): return Tup(ai)
            return self.b_list(a, k)
    b_set = b_frozenset = b_list
    def b_sorted(self, a, k):
        it = self.it
        ai = it.as_iter(a[0])
        if isinstance(ai, list) and len(ai) <= 1: return it.lst(ai)
        if isinstance(ai, list) and all(isinstance(x, PyC) and isinstance(x.v, str) for x in ai): return it.lst(sorted(ai, key=lambda x: x.v))
        ns = []
        if isinstance(ai, list):
            for x in ai: ns += self.nodes(x)
        e = ExtObj('sorted', tuple(a)); e.ns = ns
        return e
    def b_dict(self, a, k):
        d = {}
        if a and isinstance(a[0], Dct): d.update(self.it.obj(a[0])['d'])
        elif a:
            try:
                for t in self.it.seq(a[0]): d[self.it.hkey(t.items[0])] = t.items[1]
            except Exception:
                ai = self.it.as_iter(a[0])
                if isinstance(ai, list):
                    for t in ai: d[self.it.hkey(t.items[0])] = t.items[1]
                else: return self.it.unsup('dict()')
        d.update(k)
        return self.it.dct(d)
    def b_sum(self, a, k):
        it, g = self.it, self.g
        start = a[1] if len(a) > 1 else k.get('start', it.num(0))
        ai = it.as_iter(a[0])
        if isinstance(ai, list):
            r = start
            for x in ai:
                if isinstance(x, Phi) and x.b is UNDEF:
                    r = it.binop('Add', r, self.binary(lambda p, q: g.sel(x.c, p, g.const(0)), x.a, it.num(0)))
                else: r = it.binop('Add', r, x)
            return r
        if isinstance(ai, AbsIter):
            arr = self.to_arr(ai)
            if isinstance(arr, Arr): return it.binop('Add', start, self.reduce('sum', arr, 0))
        return it.unsup('sum()')
    def b_map(self, a, k):
        it = self.it
        subs = [it.as_iter(x) for x in a[1:]]
        if all(isinstance(x, list) for x in subs):
            return it.lst([it.call(a[0], list(t), {}) for t in zip(*subs)])
        if all(isinstance(x, AbsIter) for x in subs):
            l = it.lst([])
            it.obj(l)['abs'] = AbsIter(subs[0].axis, lambda i: it.call(a[0], [s.elem(i) for s in subs], {}))
            return l
        return it.unsup('map()')
    def b_max(self, a, k): return self._mm('max', a, k)
    def b_min(self, a, k): return self._mm('min', a, k)
    def _mm(self, nm, a, k):
        it, g = self.it, self.g
        if len(a) == 1:
            v = self.to_arr(a[0])
            if isinstance(v, (Arr, Num)): return self.reduce(nm, v, 0 if isinstance(v, Arr) and len(v.shape) == 1 else None)
            return self.opaque_result(nm, a, k)
        r = a[0]
        for x in a[1:]: r = self.binary(lambda p, q: g.fn(nm, p, q), r, x)
        return r
    def b_round(self, a, k): return self.unary(lambda n: self.g.fn('round', n), a[0])
    def b_pow(self, a, k): return self.it.binop('Pow', a[0], a[1])
    def b_divmod(self, a, k): return Tup([self.it.binop('FloorDiv', a[0], a[1]), self.it.binop('Mod', a[0], a[1])])
    def b_any(self, a, k):
        it = self.it
        if isinstance(a[0], (Arr, Num)): return self.reduce('any', a[0])
        ai = it.as_iter(a[0])
        if isinstance(ai, list):
            r = it.g.const(False)
            for x in ai: r = it.g.or_(r, it.truth(x))
            return Num(r)
        if isinstance(ai, AbsIter):
            v = self.to_arr(ai)
            if isinstance(v, Arr): return self.reduce('any', v)
        return Num(it.g.mk('unk', (), 'any'))
    def b_all(self, a, k):
        it = self.it
        if isinstance(a[0], (Arr, Num)): return self.reduce('all', a[0])
        ai = it.as_iter(a[0])
        if isinstance(ai, list):
            r = it.g.const(True)
            for x in ai: r = it.g.and_(r, it.truth(x))
            return Num(r)
        if isinstance(ai, AbsIter):
            v = self.to_arr(ai)
            if isinstance(v, Arr): return self.reduce('all', v)
        return Num(it.g.mk('unk', (), 'all'))
    NDATTRS = frozenset('T all any argmax argmin argsort astype clip copy cumprod cumsum data diagonal dot dtype fill flags flat flatten imag item itemsize max mean min nbytes ndim nonzero prod put ravel real repeat reshape resize round searchsorted shape size sort squeeze std strides sum swapaxes take tolist trace transpose var view __len__ __iter__ __getitem__ __array__ __setitem__ __contains__ __add__ __class__'.split())
    def b_hasattr(self, a, k):
        v = a[0]; it = self.it
        if len(a) > 1 and isinstance(a[1], PyC) and isinstance(a[1].v, str):
            n = a[1].v
            if isinstance(v, Inst):
                if n in it.obj(v)['attrs'] or any(n in c.attrs for c in v.cls.mro()): return it.num(True)
                eb = v.cls.ext_bases()
                if all(x in ('list', 'builtins.list', 'builtins.object', 'object') for x in eb): return it.num(hasattr([] if any('list' in x for x in eb) else object(), n))
            elif isinstance(v, Cls):
                if any(n in c.attrs for c in v.mro()): return it.num(True)
                if not v.ext_bases(): return it.num(hasattr(object, n))
            elif isinstance(v, Arr): return it.num(n in self.NDATTRS)
            elif isinstance(v, Num): return it.num(hasattr(1.0, n))
            elif isinstance(v, PyC): return it.num(hasattr(v.v, n))
            elif isinstance(v, (Lst, Tup, Dct)): return it.num(hasattr([] if isinstance(v, Lst) else () if isinstance(v, Tup) else {}, n))
            elif isinstance(v, (Func, Bound)): return it.num(hasattr(len, n) or n in ('__code__', '__defaults__'))
        return Num(self.g.mk('unk', (), 'hasattr'))
    def b_getattr(self, a, k):
        if isinstance(a[1], PyC):
            v = a[0]
            if len(a) > 2 and isinstance(v, Inst) and not (a[1].v in self.it.obj(v)['attrs'] or any(a[1].v in c.attrs for c in v.cls.mro())):
                self.it.attr_event('r', v, a[1].v)
                return a[2]
            return self.it.getattr(v, a[1].v)
        return self.it.unsup('dynamic getattr')
    def b_setattr(self, a, k):
        if isinstance(a[1], PyC): self.it.setattr(a[0], a[1].v, a[2]); return NONE
        return self.it.unsup('dynamic setattr')
    def b_callable(self, a, k): return self.it.num(isinstance(a[0], (Func, Bound, Method, Ext, Cls)))
    def b_slice(self, a, k):
        a = list(a)
        if len(a) == 1: return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)
    def b_object(self, a, k): return ExtObj('object')
    def b_open(self, a, k): return ExtObj('file', tuple(a[:2]))
    # files written and read back within one analysis (only when a check provides a store)
    def fkey(self, v, ext=''):
        if isinstance(v, ExtObj) and v.name == 'file': v = v.args[0]
        if isinstance(v, PyC) and isinstance(v.v, str): return v.v if v.v.endswith(ext) else v.v + ext
        return None
    def fmode(self, f):
        return f.args[1].v if isinstance(f, ExtObj) and f.name == 'file' and len(f.args) > 1 and isinstance(f.args[1], PyC) else None
    def fstore(self, name, key, v, f=None):
        it = self.it
        if key is None: it.unsup('name of a file'); return NONE
        m = self.fmode(f)
        if m and m[0] in 'ax' and key in it.files: return NONE      # what was there before comes first
        if m and m[0] == 'r': it.event('nofile', detail=key); return NONE
        it.files[key] = v; return NONE
    def fload(self, name, key):
        it = self.it
        if key is None: return it.unsup('name of a file')
        if key not in it.files:
            it.event('nofile', detail=key); return Unk('file never written')
        return it.files[key]
    def n_save(self, a, k):
        if self.it.files is None: return self.opaque_result('numpy_save', a, k)
        return self.fstore('save', self.fkey(a[0], '.npy'), self.n_array([a[1]], {}))
    def n_load(self, a, k):
        if self.it.files is None: return self.opaque_result('numpy_load', a, k)
        v = self.fload('load', self.fkey(a[0]))
        return self.to_arr(v, True) if isinstance(v, Arr) else v
    def n_savez(self, a, k):
        if self.it.files is None: return self.opaque_result('numpy_savez', a, k)
        d = {'arr_%d' % i: self.n_array([v], {}) for i, v in enumerate(a[1:])}
        d.update({q: self.n_array([v], {}) for q, v in k.items()})
        return self.fstore('savez', self.fkey(a[0], '.npz'), self.it.dct(d))
    n_savez_compressed = n_savez
    def x_pickle_dump(self, a, k):
        if self.it.files is None: return self.opaque_result('pickle.dump', a, k)
        return self.fstore('dump', self.fkey(a[1]), a[0], a[1])
    def x_pickle_load(self, a, k):
        if self.it.files is None: return self.opaque_result('pickle.load', a, k)
        return self.fload('load', self.fkey(a[0]))
    def b_exit(self, a, k): raise PathDead()
    b_quit = b_exit
    def b_id(self, a, k): return Num(self.g.mk('unk', (), 'id'))
    b_hash = b_id
    def b_next(self, a, k):
        ai = self.it.as_iter(a[0])
        if isinstance(ai, list) and ai:
            v = ai[0]
            if isinstance(v, Phi) and v.b is UNDEF: 
                r = a[1] if len(a) > 1 else Unk('next')
                for x in reversed(ai):
                    r = Phi(x.c, x.a, r) if isinstance(x, Phi) and x.b is UNDEF else x
                return r
            return v
        return Unk('next')
    def b_filter(self, a, k):
        ai = self.it.as_iter(a[1])
        if isinstance(ai, list):
            out = []
            for x in ai:
                c = self.it.truth(self.it.call(a[0], [x], {}))
                kn = self.it.known(c)
                if kn is True: out.append(x)
                elif kn is None: out.append(Phi(c, x, UNDEF))
            return self.it.lst(out)
        return self.it.unsup('filter')
    def b_super(self, a, k): return Unk('super')
    def b_vars(self, a, k): return Unk('vars')
    b_dir = b_globals = b_locals = b_vars
    # functools / itertools / copy / math
    def x_functools_partial(self, a, k):
        e = ExtObj('partial', tuple(a)); e.kw = k; return e
    def x_functools_wraps(self, a, k): return Ext('identity')
    def x_functools_lru_cache(self, a, k): return Ext('identity')
    def x_identity(self, a, k): return a[0]
    def x_functools_reduce(self, a, k):
        it = self.it
        ai = it.as_iter(a[1])
        if isinstance(ai, list) and (ai or len(a) > 2):
            r = a[2] if len(a) > 2 else ai[0]
            for x in (ai if len(a) > 2 else ai[1:]): r = it.call(a[0], [r, x], {})
            return r
        return it.unsup('reduce')
    def x_itertools_chain(self, a, k):
        it = self.it
        out = []
        for x in a:
            ai = it.as_iter(x)
            if not isinstance(ai, list): return it.unsup('chain')
            out += ai
        return it.lst(out)
    def x_itertools_product(self, a, k):
        if 'repeat' in k: a = list(a) * int(self.g.cval(k['repeat'].node))
        return ExtObj('product', tuple(a))
    def x_copy_copy(self, a, k): return self.x_copy_deepcopy(a, k)
    def x_copy_deepcopy(self, a, k):
        v = a[0]
        if isinstance(v, Arr): return self.to_arr(v, True)
        if isinstance(v, Lst) and not self.it.obj(v).get('abs'): return self.it.lst(self.it.obj(v)['items'])
        if isinstance(v, Dct): return self.it.dct(self.it.obj(v)['d'])
        if isinstance(v, (Num, PyC, Tup)): return v
        return self.it.unsup('copy of %s' % type(v).__name__)
    def x_operator_mul(self, a, k): return self.it.binop('Mult', *a)
    def x_operator_add(self, a, k): return self.it.binop('Add', *a)
    def x_os_path_normpath(self, a, k):
        if isinstance(a[0], PyC) and isinstance(a[0].v, str): return PyC(os.path.normpath(a[0].v))
        return self.uf('normpath', a)
    def x_os_path_join(self, a, k):
        if all(isinstance(x, PyC) and isinstance(x.v, str) for x in a): return PyC(os.path.join(*[x.v for x in a]))
        return self.uf('pathjoin', a)
    def concrete(self, v):
        """(python value,) of a concrete string, number or tuple of such, or None"""
        if isinstance(v, PyC): return (v.v,) if isinstance(v.v, (str, type(None), bool, int, float)) else None
        if isinstance(v, Num):
            c = self.g.cval(v.node)
            if c is None: return None
            return (int(c) if not isinstance(c, bool) and c == int(c) else c,)
        if isinstance(v, Tup):
            cs = [self.concrete(x) for x in v.items]
            return None if None in cs else (tuple(x[0] for x in cs),)
        return None
    def pathfun(name):
        def f(self, a, k):
            cs = [self.concrete(x) for x in a]
            if None in cs: return self.uf(name, a)
            r = getattr(os.path, name)(*[x[0] for x in cs])
            return PyC(r) if isinstance(r, str) else Tup([PyC(x) for x in r]) if isinstance(r, tuple) else self.uf(name, a)
        return f
    x_os_path_basename = pathfun('basename'); x_os_path_dirname = pathfun('dirname')
    x_os_path_splitext = pathfun('splitext'); x_os_path_split = pathfun('split')
    def b_str(self, a, k):
        c = self.concrete(a[0]) if a else ('',)
        return Unk('str') if c is None else PyC(str(c[0]))
    def uf(self, name, a):
        e = ExtObj(name, tuple(a)); return e
    # numpy: construction
    def n_array(self, a, k):
        v = self.to_arr(a[0], copy=True)
        if isinstance(v, Num): return self.it.arr(v.node, ())
        if isinstance(v, Arr) and isinstance(a[0], Arr): return v
        return v
    def n_asarray(self, a, k):
        v = self.to_arr(a[0])
        if isinstance(v, Num): return self.it.arr(v.node, ())
        return v
    n_asanyarray = n_ascontiguousarray = n_asfarray = n_asarray
    def n_atleast_1d(self, a, k):
        v = self.to_arr(a[0])
        if isinstance(v, Num): return self.it.arr(v.node, (1,))
        if isinstance(v, Arr) and v.shape == (): return self.reshape(v, (1,))
        return v
    def n_copy(self, a, k): return self.n_array(a, k)
    def full(self, sh, node):
        it = self.it
        axes = self.parse_shape(sh)
        if axes is None: return it.unsup('array shape') 
        import itertools
        return it.arr({key: node for key in itertools.product(*[range(x) for x in axes if isinstance(x, int)])}, axes)
    def shp(self, a, k, i=0):
        return a[i] if len(a) > i else k.get('shape')
    def n_zeros(self, a, k): return self.full(self.shp(a, k), self.g.const(0))
    def n_ones(self, a, k): return self.full(self.shp(a, k), self.g.const(1))
    def n_empty(self, a, k): return self.full(self.shp(a, k), self.g.mk('uninit'))
    def n_full(self, a, k):
        v = a[1] if len(a) > 1 else k['fill_value']
        v = self.scal(v)
        if isinstance(v, Num): return self.full(self.shp(a, k), v.node)
        sh = self.parse_shape(self.shp(a, k))
        if isinstance(v, Arr) and sh is not None: return self.it.arr(dict(self.bcontent(v, sh)), sh)
        return self.it.unsup('np.full')
    def like(self, v, node):
        v = self.to_arr(v)
        if isinstance(v, Num): return self.it.arr(node, ())
        if not isinstance(v, Arr): return self.it.unsup('like')
        return self.it.arr({key: node for key in self.it.content(v)}, v.shape)
    def n_zeros_like(self, a, k): return self.like(a[0], self.g.const(0))
    def n_ones_like(self, a, k): return self.like(a[0], self.g.const(1))
    def n_empty_like(self, a, k): return self.like(a[0], self.g.mk('uninit'))
    def n_full_like(self, a, k):
        v = self.scal(a[1] if len(a) > 1 else k['fill_value'])
        return self.like(a[0], v.node if isinstance(v, Num) else self.g.mk('unk', (), 'full_like'))
    def n_eye(self, a, k):
        n = self.g.cval(a[0].node)
        return self.it.arr({(i, j): self.g.const(1 if i == j else 0) for i in range(n) for j in range(n)}, (n, n))
    n_identity = n_eye
    def n_linspace(self, a, k):
        it, g = self.it, self.g
        a = list(a) + [k[x] for x in ('start', 'stop', 'num')[len(a):] if x in k]
        n = a[2] if len(a) > 2 else it.num(50)
        lo, hi = self.scal(a[0]), self.scal(a[1])
        ep = k.get('endpoint')
        epv = True if ep is None else g.cval(ep.node)
        c = g.cval(n.node) if isinstance(n, Num) else None
        if c is not None and int(c) <= 8:
            c = int(c)
            step = g.div(g.sub(hi.node, lo.node), g.const((c-1) if epv else c)) if c > 1 or not epv else g.const(0)
            return it.arr({(i,): g.add(lo.node, g.mul(step, g.const(i))) for i in range(c)}, (c,))
        ax = it.axis_of(n.node)
        if isinstance(ax, int): ax = ('len', ax)
        nd = g.mk('linspace', (lo.node, hi.node, n.node), bool(epv))
        if 'retstep' in k and g.cval(k['retstep'].node):
            step = g.div(g.sub(hi.node, lo.node), g.sub(n.node, g.const(1)))
            return Tup([it.arr(nd, (ax,)), Num(step)])
        return it.arr(nd, (ax,))
    def n_arange(self, a, k):
        it, g = self.it, self.g
        a = [self.scal(x) for x in a]
        if 'stop' in k and len(a) < 2: a = a + [self.scal(k['stop'])]
        if any(not isinstance(x, Num) for x in a): return it.unsup('arange')
        if len(a) == 1: lo, hi, st = g.const(0), a[0].node, g.const(1)
        else: lo, hi, st = a[0].node, a[1].node, (a[2].node if len(a) > 2 else g.const(1))
        cl, ch, cs = g.cval(lo), g.cval(hi), g.cval(st)
        if None not in (cl, ch, cs) and all(float(x).is_integer() for x in (cl, ch, cs)) and abs(ch-cl) <= 64:
            r = list(range(int(cl), int(ch), int(cs)))
            return it.arr({(i,): g.const(x) for i, x in enumerate(r)}, (len(r),))
        if cs in (1, -1):
            cnt = g.sub(hi, lo) if cs == 1 else g.sub(lo, hi)
            ax = it.axis_of(cnt)
            io = g.mk('iota', (), ax)
            return it.arr(g.add(lo, io if cs == 1 else g.neg(io)), (ax,))
        ax = ('cnt', g.mk('arangelen', (lo, hi, st)).id)
        return it.arr(g.add(lo, g.mul(st, g.mk('iota', (), ax))), (ax,))
    def n_meshgrid(self, a, k):
        it = self.it
        vs = [self.to_arr(x) for x in a]
        axes = tuple(v.shape[0] for v in vs)
        if len(vs) == 2: axes = (axes[1], axes[0])
        return it.lst([it.arr(dict(self.it.content(v)), axes) for v in vs])
    def n_where(self, a, k):
        g = self.g
        if len(a) == 1:
            v = self.to_arr(a[0])
            e = ExtObj('where1', (v,)); 
            return Tup([v]) if isinstance(v, Arr) and self.isboolv(v) else e
        c = self.unary(lambda n: g.truth(n), a[0])
        x, y = self.to_arr(a[1]), self.to_arr(a[2])
        def go(c, x, y):
            sh = ()
            for v in (c, x, y):
                if isinstance(v, Arr): sh = self.bshape(sh, v.shape)
                elif not isinstance(v, Num): return Unk('where')
            cc, cx, cy = self.bcontent(c, sh), self.bcontent(x, sh), self.bcontent(y, sh)
            out = {q: g.sel(cc[q], cx[q], cy[q]) for q in cc}
            return self.it.arr(out, sh)
        return self.it.lift(go, c, x, y)
    def n_select(self, a, k):
        g, it = self.g, self.it
        conds, vals = it.seq(a[0]), it.seq(a[1])
        r = a[2] if len(a) > 2 else k.get('default', it.num(0))
        for c, v in reversed(list(zip(conds, vals))): r = self.n_where([c, v, r], {})
        return r
    def n_concatenate(self, a, k):
        it, g = self.it, self.g
        parts = [self.to_arr(x) for x in it.seq(a[0])]
        if all(isinstance(p, Arr) and len(p.shape) == 1 and isinstance(p.shape[0], int) for p in parts):
            ns = [self.it.content(p)[(i,)] for p in parts for i in range(p.shape[0])]
            return it.arr({(i,): n for i, n in enumerate(ns)}, (len(ns),))
        parts = [p for p in parts if not (isinstance(p, Arr) and p.shape and p.shape[0] == 0)]
        if len(parts) == 1: return self.to_arr(parts[0], True)
        axv = a[1] if len(a) > 1 else k.get('axis', it.num(0))
        ax = self.const_axis(axv)
        if isinstance(axv, PyC) and axv.v is None: return self.n_concatenate([Tup([self.ravel(p) for p in parts])], {})
        if len(parts) > 1 and isinstance(ax, int) and all(isinstance(p, Arr) and p.shape and len(p.shape) == len(parts[0].shape) for p in parts):
            r = self.join(parts, ax % len(parts[0].shape))
            if r is not None: return r
        if all(isinstance(p, Arr) and len(p.shape) == 1 for p in parts):
            desc = tuple(p.shape[0] for p in parts)
            ns = []
            for p in parts:
                c = it.content(p)
                ns += [c[q] for q in sorted(c)]
            # total length, when a slice of an axis is completed
            sym = [p for p in desc if not isinstance(p, int)]
            extra = sum(p for p in desc if isinstance(p, int))
            ax = ('cat',) + desc
            if len(sym) == 1 and isinstance(sym[0], tuple) and sym[0][0] == 'shorter':
                ax = sym[0][1] if sym[0][2] == extra else ax
            elif len(sym) == 1 and extra == 0: ax = sym[0]
            return it.arr(g.mk('concat', tuple(ns), desc), (ax,))
        return self.opaque_result('concatenate', a, k)
    def join(self, parts, ax):
        """arrays of the same rank, one after the other along a concrete axis"""
        nd = len(parts[0].shape)
        if not all(isinstance(p.shape[ax], int) for p in parts): return None
        others = [tuple(s for q, s in enumerate(p.shape) if q != ax) for p in parts]
        if any(o != others[0] for o in others):
            self.it.issue('shape', detail='arrays of shapes %s cannot be joined' % ' and '.join(fmt(p.shape) for p in parts)); return None
        out = {}; off = 0
        pos = sum(1 for q in range(ax) if isinstance(parts[0].shape[q], int))
        for p in parts:
            for key, n in self.it.content(p).items(): out[key[:pos] + (key[pos] + off,) + key[pos+1:]] = n
            off += p.shape[ax]
        sh = parts[0].shape[:ax] + (off,) + parts[0].shape[ax+1:]
        return self.it.arr(out, sh)
    def at_least(self, v, n):
        v = self.to_arr(v)
        if isinstance(v, Num): return self.it.arr({(0,)*n: v.node}, (1,)*n)
        if not isinstance(v, Arr) or len(v.shape) >= n: return v
        sh = v.shape
        if n == 2: new = (1,) * (2 - len(sh)) + tuple(sh)
        else: new = ((1, 1, 1) if len(sh) == 0 else (1, sh[0], 1) if len(sh) == 1 else tuple(sh) + (1,))
        return self.reshape(v, new)
    def n_atleast_2d(self, a, k): return self.at_least(a[0], 2)
    def n_atleast_3d(self, a, k): return self.at_least(a[0], 3)
    def n_dstack(self, a, k): return self.n_concatenate([Tup([self.at_least(x, 3) for x in self.it.seq(a[0])])], {'axis': self.it.num(2)})
    def n_hstack(self, a, k):
        parts = [self.n_atleast_1d([x], {}) for x in self.it.seq(a[0])]
        one = all(isinstance(p, Arr) and len(p.shape) == 1 for p in parts)
        return self.n_concatenate([Tup(parts)], {'axis': self.it.num(0 if one else 1)})
    def n_append(self, a, k):
        if 'axis' in k: return self.n_concatenate([Tup([a[0], a[1]])], {'axis': k['axis']})
        return self.n_concatenate([Tup([self.n_atleast_1d([a[0]], {}), self.n_atleast_1d([a[1]], {})])], {})
    def n_insert(self, a, k):
        if isinstance(a[1], Num) and self.g.cval(a[1].node) == 0: return self.n_append([a[2], a[0]], {})
        return self.opaque_result('insert', a, k)
    def n_column_stack(self, a, k):
        it = self.it
        parts = [self.to_arr(x) for x in it.seq(a[0])]
        if all(isinstance(p, Arr) and p.shape in ((3, 1), (3,)) for p in parts):
            out = {}
            for j, p in enumerate(parts):
                for key, n in it.content(p).items(): out[(key[0], j)] = n
            return it.arr(out, (3, len(parts)))
        if all(isinstance(p, Arr) and len(p.shape) == 1 for p in parts):
            return self.transpose(self.stack(parts))
        if all(isinstance(p, Arr) for p in parts):
            return self.n_concatenate([Tup([self.reshape(p, p.shape + (1,)) if len(p.shape) == 1 else p for p in parts])], {'axis': it.num(1)})
        return self.opaque_result('column_stack', a, k)
    def n_vstack(self, a, k):
        it = self.it
        parts = [self.to_arr(x) for x in it.seq(a[0])]
        if all(isinstance(p, Arr) and len(p.shape) == 1 for p in parts): return self.stack(parts)
        if all(isinstance(p, Arr) and len(p.shape) == 2 and isinstance(p.shape[0], int) for p in parts):
            out = {}; r = 0
            for p in parts:
                for key, n in it.content(p).items(): out[(key[0] + r,) + key[1:]] = n
                r += p.shape[0]
            return it.arr(out, (r,) + parts[0].shape[1:])
        if all(isinstance(p, (Arr, Num)) for p in parts):
            return self.n_concatenate([Tup([self.at_least(p, 2) for p in parts])], {'axis': it.num(0)})
        return self.opaque_result('vstack', a, k)
    def n_row_stack(self, a, k): return self.n_vstack(a, k)
    def n_stack(self, a, k):
        ax = self.const_axis(k.get('axis', a[1] if len(a) > 1 else None)) or 0
        r = self.stack([self.to_arr(x) for x in self.it.seq(a[0])])
        if ax in (-1, len(r.shape)-1):
            n = len(r.shape)
            return self.transpose(r, list(range(1, n)) + [0])
        if ax:
            n = len(r.shape); ax %= n
            return self.transpose(r, list(range(1, ax+1)) + [0] + list(range(ax+1, n)))
        return r
    def n_reshape(self, a, k): return self.call_method(self.n_asarray([a[0]], {}), 'reshape', list(a[1:]), k)
    def n_ravel(self, a, k): return self.ravel(a[0])
    def n_squeeze(self, a, k):
        v = self.to_arr(a[0])
        if isinstance(v, Arr): return self.reshape(v, tuple(x for x in v.shape if x != 1))
        return v
    def n_transpose(self, a, k):
        ax = self.const_axis(a[1] if len(a) > 1 else k.get('axes'))
        return self.transpose(self.to_arr(a[0]), ax) if ax is not None else self.transpose(self.to_arr(a[0]))
    def n_expand_dims(self, a, k):
        v = self.to_arr(a[0]); ax = self.const_axis(a[1] if len(a) > 1 else k['axis'])
        sh = list(v.shape); sh.insert(ax if ax >= 0 else len(sh)+1+ax, 1)
        return self.reshape(v, tuple(sh))
    def n_broadcast_to(self, a, k):
        v = self.to_arr(a[0]); sh = self.parse_shape(a[1])
        return self.it.arr(dict(self.bcontent(v, sh)), sh)
    def n_broadcast_arrays(self, a, k):
        vs = [self.to_arr(x) for x in a]
        sh = ()
        for v in vs: sh = self.bshape(sh, v.shape if isinstance(v, Arr) else ())
        return self.it.lst([self.it.arr(dict(self.bcontent(v, sh)), sh, self.it.cellorigin.get(getattr(v, 'cell', None), ())) for v in vs])
    def n_tile(self, a, k):
        v = self.to_arr(a[0]); reps = self.const_axis(a[1] if len(a) > 1 else k.get('reps'))
        if isinstance(v, (Num, Arr)) and reps is not None and (isinstance(reps, int) or all(isinstance(r, int) for r in reps)):
            reps = [reps] if isinstance(reps, int) else list(reps)
            if isinstance(v, Num): v = self.it.arr(v.node, ())
            n = max(len(reps), len(v.shape)); reps = [1] * (n - len(reps)) + reps
            if len(v.shape) < n: v = self.reshape(v, (1,) * (n - len(v.shape)) + tuple(v.shape))
            for ax, r in enumerate(reps):
                if r == 1: continue
                if not isinstance(v.shape[ax], int) or r < 1: return self.opaque_result('tile', a, k)
                v = self.join([v] * r, ax)
            return self.to_arr(v, True)
        return self.opaque_result('tile', a, k)
    def n_repeat(self, a, k):
        v = self.to_arr(a[0]); n = self.const_axis(a[1] if len(a) > 1 else k.get('repeats'))
        ax = self.const_axis(a[2] if len(a) > 2 else k.get('axis'))
        if isinstance(v, Num) and isinstance(n, int): return self.it.arr({(i,): v.node for i in range(n)}, (n,))
        if isinstance(v, Arr) and isinstance(n, int) and all(isinstance(s, int) for s in v.shape):
            if ax is None: v = self.ravel(v); ax = 0
            ax %= len(v.shape)
            out = {}
            for key, nd in self.it.content(v).items():
                for i in range(n): out[key[:ax] + (key[ax]*n + i,) + key[ax+1:]] = nd
            return self.it.arr(out, v.shape[:ax] + (v.shape[ax]*n,) + v.shape[ax+1:])
        return self.opaque_result('repeat', a, k)
    def n_flip(self, a, k):
        v = self.to_arr(a[0])
        ax = self.const_axis(a[1] if len(a) > 1 else k.get('axis'))
        if not isinstance(v, Arr): return v
        axes = range(len(v.shape)) if ax is None else [x % len(v.shape) for x in (ax if isinstance(ax, list) else [ax])]
        full = Slice(None, None, None)
        return self._index(v, [Slice(None, None, self.it.num(-1)) if q in axes else full for q in range(len(v.shape))])
    def n_flipud(self, a, k): return self.n_flip([a[0], self.it.num(0)], {})
    def n_fliplr(self, a, k): return self.n_flip([a[0], self.it.num(1)], {})
    def n_roll(self, a, k):
        v = self.to_arr(a[0]); n = self.const_axis(a[1] if len(a) > 1 else k.get('shift')); ax = self.const_axis(a[2] if len(a) > 2 else k.get('axis'))
        if isinstance(v, Arr) and isinstance(n, int) and (ax is not None or len(v.shape) == 1) and not isinstance(ax, list):
            ax = (ax or 0) % len(v.shape)
            if isinstance(v.shape[ax], int):
                m = v.shape[ax]; pos = sum(1 for q in range(ax) if isinstance(v.shape[q], int))
                return self.it.arr({key[:pos] + ((key[pos] + n) % m,) + key[pos+1:]: nd for key, nd in self.it.content(v).items()}, v.shape)
        return self.opaque_result('numpy.roll', a, k)
    def n_take(self, a, k):
        v = self.to_arr(a[0]); ax = self.const_axis(a[2] if len(a) > 2 else k.get('axis'))
        idx = a[1] if len(a) > 1 else k['indices']
        if isinstance(v, Arr):
            if ax is None and len(v.shape) != 1: v = self.ravel(v)
            ax = (ax or 0) % len(v.shape)
            return self._index(v, [Slice(None, None, None)] * ax + [idx])
        return self.opaque_result('numpy.take', a, k)
    def n_swapaxes(self, a, k):
        v = self.to_arr(a[0]); x, y = self.const_axis(a[1]), self.const_axis(a[2])
        n = len(v.shape); o = list(range(n)); o[x % n], o[y % n] = o[y % n], o[x % n]
        return self.transpose(v, o)
    def n_moveaxis(self, a, k):
        v = self.to_arr(a[0]); x, y = self.const_axis(a[1]), self.const_axis(a[2])
        n = len(v.shape); o = [q for q in range(n) if q != x % n]; o.insert(y % n, x % n)
        return self.transpose(v, o)
    def n_heaviside(self, a, k):
        g = self.g
        return self.it.lift(lambda x, h: self.n_where([self.compare('Gt', x, self.it.num(0)), self.it.num(1), self.n_where([self.compare('Lt', x, self.it.num(0)), self.it.num(0), h], {})], {}), self.to_arr(a[0]), self.to_arr(a[1]))
    def n_piecewise(self, a, k):
        it = self.it
        conds = it.seq(a[1]) if isinstance(a[1], (Lst, Tup)) else [a[1]]
        fs = it.seq(a[2])
        x = a[0]
        def val(f): return f if isinstance(f, (Num, Arr)) else it.call(f, [x] + list(a[3:]), k)
        r = val(fs[len(conds)]) if len(fs) > len(conds) else it.num(0)
        for c, f in zip(conds, fs): r = self.n_where([c, val(f), r], {})
        return r
    def n_diag(self, a, k):
        v = self.to_arr(a[0])
        if isinstance(v, Arr) and all(isinstance(s, int) for s in v.shape) and len(a) == 1:
            c = self.it.content(v)
            if len(v.shape) == 1:
                n = v.shape[0]
                return self.it.arr({(i, j): c[(i,)] if i == j else self.g.const(0) for i in range(n) for j in range(n)}, (n, n))
            if len(v.shape) == 2:
                n = min(v.shape)
                return self.it.arr({(i,): c[(i, i)] for i in range(n)}, (n,))
        return self.opaque_result('numpy.diag', a, k)
    def n_trace(self, a, k): return self.reduce('sum', self.n_diag([a[0]], {}))
    def n_sinc(self, a, k): return self.opaque_result('numpy.sinc', a, k)
    def n_copysign(self, a, k):
        g = self.g
        return self.binary(lambda x, y: g.mul(g.fn('abs', x), g.sel(g.cmp('<', y, g.const(0)), g.const(-1), g.const(1))), a[0], a[1])
    def n_fabs(self, a, k): return self.unary(lambda n: self.g.fn('abs', n), a[0])
    # numpy: elementwise
    def n_add(self, a, k): return self.it.binop('Add', a[0], a[1])
    def n_subtract(self, a, k): return self.it.binop('Sub', a[0], a[1])
    def n_multiply(self, a, k): return self.it.binop('Mult', a[0], a[1])
    def n_divide(self, a, k): return self.it.binop('Div', a[0], a[1])
    n_true_divide = n_divide
    def n_power(self, a, k): return self.it.binop('Pow', a[0], a[1])
    n_float_power = n_power
    def n_pow(self, a, k): return self.n_power(a, k)
    def n_mod(self, a, k): return self.it.binop('Mod', a[0], a[1])
    n_remainder = n_fmod = n_mod
    def n_floor_divide(self, a, k): return self.it.binop('FloorDiv', a[0], a[1])
    def n_square(self, a, k): return self.unary(lambda n: self.g.pow(n, self.g.const(2)), a[0])
    def n_negative(self, a, k): return self.unary(self.g.neg, a[0])
    def n_positive(self, a, k): return a[0]
    def n_reciprocal(self, a, k): return self.unary(lambda n: self.g.div(self.g.const(1), n), a[0])
    def n_cbrt(self, a, k): return self.unary(lambda n: self.g.pow(n, self.g.const(1/3)), a[0])
    def n_hypot(self, a, k):
        g = self.g
        return self.binary(lambda x, y: g.fn('sqrt', g.add(g.pow(x, g.const(2)), g.pow(y, g.const(2)))), a[0], a[1])
    def n_arctan2(self, a, k): return self.binary(lambda x, y: self.g.fn('arctan2', x, y), a[0], a[1])
    n_atan2 = n_arctan2
    def n_maximum(self, a, k): return self.binary(lambda x, y: self.g.fn('max', x, y), a[0], a[1])
    def n_minimum(self, a, k): return self.binary(lambda x, y: self.g.fn('min', x, y), a[0], a[1])
    n_fmax, n_fmin = n_maximum, n_minimum
    def n_clip(self, a, k):
        r = a[0]
        lo = a[1] if len(a) > 1 else k.get('a_min', NONE); hi = a[2] if len(a) > 2 else k.get('a_max', NONE)
        if not isinstance(lo, PyC): r = self.n_maximum([r, lo], {})
        if not isinstance(hi, PyC): r = self.n_minimum([r, hi], {})
        return r
    def n_nan_to_num(self, a, k):
        g = self.g
        v = self.scal(k.get('nan', self.it.num(0)))
        def f(n):
            c = g.cval(n)
            if c is not None: return v.node if c != c else n
            return g.sel(g.fn('isnan', n), v.node, n)
        return self.unary(f, a[0])
    def n_radians(self, a, k): return self.unary(lambda n: self.g.mul(n, self.g.const(math.pi/180)), a[0])
    n_deg2rad = n_radians
    def n_degrees(self, a, k): return self.unary(lambda n: self.g.mul(n, self.g.const(180/math.pi)), a[0])
    n_rad2deg = n_degrees
    def n_logical_not(self, a, k): return self.unary(self.g.not_, a[0])
    n_invert = n_bitwise_not = n_logical_not
    def n_logical_and(self, a, k): return self.binary(self.g.and_, a[0], a[1])
    def n_logical_or(self, a, k): return self.binary(self.g.or_, a[0], a[1])
    n_bitwise_and, n_bitwise_or = n_logical_and, n_logical_or
    def n_logical_xor(self, a, k): return self.it.binop('BitXor', a[0], a[1])
    def n_equal(self, a, k): return self.compare('Eq', *a)
    def n_not_equal(self, a, k): return self.compare('NotEq', *a)
    def n_less(self, a, k): return self.compare('Lt', *a)
    def n_less_equal(self, a, k): return self.compare('LtE', *a)
    def n_greater(self, a, k): return self.compare('Gt', *a)
    def n_greater_equal(self, a, k): return self.compare('GtE', *a)
    def n_isclose(self, a, k):
        g = self.g
        at = self.scal(k.get('atol', self.it.num(1e-8))).node; rt = self.scal(k.get('rtol', self.it.num(1e-5))).node
        return self.binary(lambda x, y: g.cmp('<=', g.fn('abs', g.sub(x, y)), g.add(at, g.mul(rt, g.fn('abs', y)))), a[0], a[1])
    def n_isscalar(self, a, k): return self.it.num(isinstance(a[0], Num))
    def n_iscomplexobj(self, a, k): return self.it.num(False)
    def n_ndim(self, a, k): return self.val_attr(self.to_arr(a[0]), 'ndim')
    def n_shape(self, a, k): return self.shape_tuple(self.to_arr(a[0]))
    def n_size(self, a, k): return self.val_attr(self.to_arr(a[0]), 'size')
    # reductions
    def _ax(self, a, k):
        return self.const_axis(a[1] if len(a) > 1 else k.get('axis'))
    def _kd2(self, k): return 'keepdims' in k and self.g.cval(k['keepdims'].node)
    def n_sum(self, a, k): return self.reduce('sum', a[0], self._ax(a, k), self._kd2(k))
    def n_mean(self, a, k): return self.reduce('mean', a[0], self._ax(a, k), self._kd2(k))
    n_average = n_mean
    def n_max(self, a, k): return self.reduce('max', a[0], self._ax(a, k), self._kd2(k))
    def n_min(self, a, k): return self.reduce('min', a[0], self._ax(a, k), self._kd2(k))
    n_amax, n_amin, n_nanmax, n_nanmin = n_max, n_min, n_max, n_min
    def n_prod(self, a, k): return self.reduce('prod', a[0], self._ax(a, k), self._kd2(k))
    def n_any(self, a, k): return self.reduce('any', a[0], self._ax(a, k))
    def n_all(self, a, k): return self.reduce('all', a[0], self._ax(a, k))
    def n_median(self, a, k): return self.reduce('median', a[0], self._ax(a, k))
    def n_std(self, a, k): return self.reduce('std', a[0], self._ax(a, k))
    def n_ptp(self, a, k): return self.it.binop('Sub', self.n_max(a, k), self.n_min(a, k))
    def n_var(self, a, k): return self.reduce('var', a[0], self._ax(a, k))
    def n_nansum(self, a, k): return self.n_sum([self.n_nan_to_num([a[0]], {})] + list(a[1:]), k)
    def n_argmin(self, a, k): return self.reduce('argmin', a[0], self._ax(a, k))
    def n_argmax(self, a, k): return self.reduce('argmax', a[0], self._ax(a, k))
    def n_count_nonzero(self, a, k): return self.reduce('sum', a[0])
    def n_allclose(self, a, k): return self.reduce('all', self.n_isclose(a, k))
    def n_array_equal(self, a, k): return self.reduce('all', self.compare('Eq', self.to_arr(a[0]), self.to_arr(a[1])))
    def n_norm(self, a, k):
        ax = self.const_axis(k.get('axis'))
        g = self.g
        sq = self.unary(lambda n: g.pow(n, g.const(2)), a[0])
        s = self.reduce('sum', sq, ax, self._kd2(k))
        return self.unary(lambda n: g.fn('sqrt', n), s)
    def n_dot(self, a, k): return self.dot(a, k)
    n_matmul = n_dot
    def n_vdot(self, a, k): return self.dot([self.ravel(a[0]), self.ravel(a[1])], k)
    def n_inner(self, a, k):
        b = self.to_arr(a[1])
        return self.dot([a[0], self.transpose(b) if isinstance(b, Arr) and len(b.shape) == 2 else b], k)
    def n_multi_dot(self, a, k):
        r = None
        for x in self.it.seq(a[0]): r = x if r is None else self.dot([r, x], {})
        return r
    def n_cross(self, a, k):
        ax = self.const_axis(k.get('axis'))
        if isinstance(ax, int) and (ax == -1 or all(not isinstance(x, Arr) or len(x.shape) == ax + 1 for x in map(self.to_arr, a[:2]))): k = {}
        if 'axis' in k or 'axisa' in k:
            a = [self.transpose(self.to_arr(x)) if isinstance(self.to_arr(x), Arr) and self.to_arr(x).shape == (3, 1) else x for x in a[:2]]
            return self.transpose(self.cross(a[0], a[1]))
        return self.cross(a[0], a[1])
    def n_outer(self, a, k):
        x, y = self.ravel(a[0]), self.ravel(a[1])
        return self.it.binop('Mult', self._index(x, [Slice(None, None, None), NONE]), self._index(y, [NONE, Slice(None, None, None)]))
    def n_einsum(self, a, k):
        it, g = self.it, self.g
        sp = a[0].v if isinstance(a[0], PyC) and isinstance(a[0].v, str) else None
        vs = [self.to_arr(x) for x in a[1:]]
        if sp is None or '...' in sp or not all(isinstance(v, Arr) for v in vs): return self.opaque_result('numpy.einsum', a, k)
        sp = sp.replace(' ', '')
        ins, out = sp.split('->') if '->' in sp else (sp, None)
        ins = ins.split(',')
        if out is None: out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
        size = {}
        for s, v in zip(ins, vs):
            if len(s) != len(v.shape): return self.opaque_result('numpy.einsum', a, k)
            for c, x in zip(s, v.shape):
                if size.setdefault(c, x) != x: it.issue('shape', detail='einsum of different lengths'); return Unk('einsum')
        sym = [c for c in size if not isinstance(size[c], int)]
        if any(c not in out for c in sym) or len(sym) > 1: return self.opaque_result('numpy.einsum', a, k)
        import itertools
        letters = [c for c in size if isinstance(size[c], int)]
        res = {}
        cs = [it.content(v) for v in vs]
        for combo in itertools.product(*[range(size[c]) for c in letters]):
            d = dict(zip(letters, combo))
            key = tuple(d[c] for c in out if c in d)
            term = g.const(1)
            for s, c in zip(ins, cs): term = g.mul(term, c[tuple(d[x] for x in s if x in d)])
            res[key] = g.add(res[key], term) if key in res else term
        sh = tuple(size[c] for c in out)
        return Num(res[()]) if sh == () else it.arr(res, sh)
    def n_trapz(self, a, k):
        it, g = self.it, self.g
        y = self.to_arr(a[0])
        x = self.to_arr(a[1]) if len(a) > 1 else (self.to_arr(k['x']) if 'x' in k else None)
        ax = self.const_axis(k.get('axis', it.num(-1)))
        if not isinstance(y, Arr): 
            if isinstance(y, Num): it.issue('shape', detail='trapz of a scalar')
            return Num(g.mk('unk', (), 'trapz'))
        ax = ax % len(y.shape)
        A = y.shape[ax]
        if isinstance(A, int): return self.opaque_result('trapz', a, k)
        xs = x
        if isinstance(x, Arr):
            if len(x.shape) == 1 and x.shape[0] != A:
                it.issue('shape', detail='trapz over %s with abscissa %s' % (fmt(y.shape), fmt(x.shape)))
            xn = self.single(it.content(x))
        elif 'dx' in k: xn = g.mul(self.scal(k['dx']).node, g.mk('iota', (), A))
        else: xn = g.mk('iota', (), A)
        conc = it.content(y)
        out = {kk: g.mk('red', (n, xn), ('trapz', (A,))) for kk, n in conc.items()}
        sh = tuple(s for q, s in enumerate(y.shape) if q != ax)
        if sh == (): return Num(out[()])
        return it.arr(out, sh)
    n_trapezoid = n_simps = n_simpson = n_trapz
    def n_cumsum(self, a, k):
        v = self.to_arr(a[0])
        if isinstance(v, Arr) and len(v.shape) == 1 and not isinstance(v.shape[0], int):
            return self.it.arr({q: self.g.mk('cumsum', (n,), v.shape[0]) for q, n in self.it.content(v).items()}, v.shape)
        ax = self._ax(a, k)
        if isinstance(v, Arr) and v.shape and (len(v.shape) == 1 or isinstance(ax, int)):
            ax = (ax or 0) % len(v.shape)
            if isinstance(v.shape[ax], int):
                pos = sum(1 for q in range(ax) if isinstance(v.shape[q], int)); c = self.it.content(v); out = {}
                for key in sorted(c):
                    prev = key[:pos] + (key[pos] - 1,) + key[pos+1:]
                    out[key] = self.g.add(out[prev], c[key]) if prev in out else c[key]
                return self.it.arr(out, v.shape)
        return self.opaque_result('cumsum', a, k)
    def n_cumtrapz(self, a, k):
        y = self.to_arr(a[0]); x = self.to_arr(a[1]) if len(a) > 1 else (self.to_arr(k['x']) if 'x' in k else None)
        g = self.g
        if isinstance(y, Arr) and len(y.shape) == 1 and isinstance(y.shape[0], int) and (x is None or isinstance(x, Arr) and x.shape == y.shape):
            c = self.it.content(y); cx = self.it.content(x) if x is not None else None
            acc = g.const(0); out = {}; off = 0
            if 'initial' in k and not isinstance(k['initial'], PyC): out[(0,)] = self.scal(k['initial']).node; off = 1
            for i in range(y.shape[0] - 1):
                dx = g.sub(cx[(i+1,)], cx[(i,)]) if cx is not None else self.scal(k['dx']).node if 'dx' in k else g.const(1)
                acc = g.add(acc, g.mul(g.mul(g.const(0.5), dx), g.add(c[(i,)], c[(i+1,)])))
                out[(i + off,)] = acc
            return self.it.arr(out, (y.shape[0] - 1 + off,))
        n = g.mk('cumtrapz', (self.single(self.it.content(y)),) + ((self.single(self.it.content(x)),) if isinstance(x, Arr) else ()), y.shape[0])
        if 'initial' in k and not isinstance(k['initial'], PyC):
            return self.it.arr(g.mk('concat', (self.scal(k['initial']).node, n), (1, ('shorter', y.shape[0], 1))), (y.shape[0],))
        return self.it.arr(n, (self.slaxis(y.shape[0], (1, None, None)),))
    n_cumulative_trapezoid = n_cumtrapz
    def n_diff(self, a, k):
        v = self.to_arr(a[0])
        if isinstance(v, Arr) and len(v.shape) == 1 and not isinstance(v.shape[0], int):
            x1 = self._index(v, [Slice(self.it.num(1), None, None)]); x0 = self._index(v, [Slice(None, self.it.num(-1), None)])
            return self.it.binop('Sub', x1, x0)
        return self.opaque_result('diff', a, k)
    def n_interp(self, a, k):
        g, it = self.g, self.it
        x, xp, fp = [self.to_arr(v) for v in a[:3]]
        if isinstance(x, PyC) or isinstance(xp, PyC) or isinstance(fp, PyC):
            it.event('noneop', detail='interp of None'); return Unk('interp of None')
        if not isinstance(x, (Arr, Num)): return self.opaque_result('interp', a, k)
        n2 = [self.nodes(xp), self.nodes(fp)]
        ns = tuple(n2[0][:1] + n2[1][:1]) if n2[0] and n2[1] else tuple(n2[0] + n2[1])
        axes = tuple(v.shape[0] for v in (xp, fp) if isinstance(v, Arr) and v.shape)
        return self.unary(lambda n: g.mk('interp', (n,) + ns, axes), x)
    def n_sort(self, a, k): return self.n_sorted_(a)
    def numorder(self, v):
        """the order of the elements of a one-dimensional array of numbers, or None"""
        if not (isinstance(v, Arr) and len(v.shape) == 1 and isinstance(v.shape[0], int)): return None
        q = self.it.content(v)
        c = [self.g.cval(q[(i,)]) if (i,) in q else None for i in range(v.shape[0])]
        if any(x is None or x != x for x in c): return None
        return sorted(range(len(c)), key=lambda i: c[i])
    def n_argsort(self, a, k):
        v = self.to_arr(a[0]) if a else None
        o = self.numorder(v)
        if o is None: return self.opaque_result('numpy.argsort', a, k)
        return self.it.arr({(j,): self.g.const(i) for j, i in enumerate(o)}, v.shape)
    def n_sorted_(self, a):
        v = self.to_arr(a[0])
        o = self.numorder(v)
        if o is not None: return self.it.arr({(j,): self.it.content(v)[(i,)] for j, i in enumerate(o)}, v.shape)
        if isinstance(v, Arr): return self.it.arr({q: self.g.mk('sort', (n,), v.shape) for q, n in self.it.content(v).items()}, v.shape)
        return v
    def n_flatnonzero(self, a, k): return self.n_where(a, k).items[0] if isinstance(self.n_where(a, k), Tup) else Unk('flatnonzero')
    def n_nonzero(self, a, k): return self.n_where(a, k)
    def n_argwhere(self, a, k): return self.opaque_result('argwhere', a, k)
    def n_vectorize(self, a, k): return ExtObj('vectorized', (a[0],)) if a else Ext('identity_vectorize')
    def apply_elementwise(self, f, args, kw):
        it = self.it
        vs = [self.to_arr(x) for x in args]
        def go(*vs):
            if not all(isinstance(v, (Num, Arr)) for v in vs): return self.opaque_result('numpy.vectorize', vs, {})
            sh = ()
            for v in vs:
                if isinstance(v, Arr): sh = self.bshape(sh, v.shape)
            cs = [self.bcontent(v, sh) for v in vs]
            out = {}
            for q in cs[0]:
                r = self.scal(it.call(f, [Num(c[q]) for c in cs], kw))
                if not isinstance(r, Num): return self.opaque_result('numpy.vectorize', vs, {})
                out[q] = r.node
            return Num(out[()]) if sh == () else it.arr(out, sh)
        return it.lift(go, *vs)
    def n_errstate(self, a, k): return ExtObj('errstate')
    def n_seterr(self, a, k): return ExtObj('seterr')
    def n_ndenumerate(self, a, k): return ExtObj('ndenumerate', tuple(a))
    def n_ndindex(self, a, k): return ExtObj('ndindex', tuple(a))
    def n_nditer(self, a, k): return ExtObj('nditer', tuple(a))
    def n_put(self, a, k): self.it.setitem(a[0], a[1], a[2]); return NONE
    def n_putmask(self, a, k): self.it.setitem(a[0], a[1], a[2]); return NONE
    n_place = n_putmask
    def n_copyto(self, a, k):
        if 'where' in k:
            src = self.to_arr(a[1])
            r = self.n_where([k['where'], src, a[0]], {})
            self.it.write_event(a[0], 'copyto'); self.it.set_content(a[0], dict(self.it.content(r)))
        else: self.it.setitem(a[0], Slice(None, None, None), a[1])
        return NONE
    def n_shares_memory(self, a, k): return Num(self.g.mk('unk', (), 'shares_memory'))
    def n_fsum(self, a, k): return self.b_sum(a, k)
    def n_diagonal(self, a, k): return self.n_diag([a[0]], {})
    def n_float64(self, a, k): return a[0]
    n_float32 = n_double = n_float64
    def n_int64(self, a, k): return self.b_int(a, k) if not isinstance(a[0], Arr) else self.unary(lambda n: n if isintlike(n) else self.g.fn('int', n), a[0])
    n_int32 = n_int_ = n_int64
    def n_bool_(self, a, k): return self.unary(self.g.truth, a[0])
    def n_deprecate(self, a, k): return a[0]
    def x_scipy_optimize_minimize_scalar(self, a, k):
        it, g = self.it, self.g
        f = a[0]
        x = Num(g.mk('bound', (), ('argmin', g.n)))
        it.muted += 1
        try: v = it.call(f, [x] + (it.seq(k['args']) if 'args' in k else []), {})
        finally: it.muted -= 1
        bnds = self.nodes(k.get('bounds', Tup([])))
        n = g.mk('argmin', tuple(self.nodes(v)) + (x.node,) + tuple(bnds), len(bnds))
        e = ExtObj('optres', ()); e.fields = {'x': Num(n)}; e.ns = [n]
        return e

    # ------------------------------------------------------------ methods of builtin values
    def call_method(self, obj, name, args, kw):
        it, g = self.it, self.g
        if isinstance(obj, Phi):
            return it.lift(lambda o: self.call_method(o, name, args, kw), obj)
        if isinstance(obj, (Arr, Num)):
            o = obj
            if name in ('ravel', 'flatten'): return self.ravel(o, copy=(name == 'flatten'))
            if name == 'reshape':
                if 'order' in kw and isinstance(kw['order'], PyC) and kw['order'].v != 'C': it.unsup('order=')
                if len(args) == 1 and not isinstance(args[0], Num): sh = self.parse_shape(args[0])
                else: sh = self.parse_shape(Tup(list(args)))
                if sh is None: return it.unsup('reshape to unknown shape')
                return self.reshape(o, sh)
            if name == 'copy': return self.to_arr(o, True)
            if name == 'astype':
                t = args[0] if args else None
                if isinstance(t, Ext) and t.name in ('builtins.bool', 'numpy.bool_'): return self.unary(g.truth, o)
                if isinstance(t, Ext) and 'int' in t.name: return self.unary(lambda n: n if isintlike(n) else g.fn('int', n), o)
                return self.to_arr(o, True)
            if name == 'tolist':
                try: return it.lst(it.seq(o))
                except Unsupported:
                    l = it.lst([]); it.obj(l)['abs'] = it.as_iter(o); return l
            if name in ('sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'std', 'argmax', 'argmin'):
                return self.reduce(name, o, self.const_axis(args[0] if args else kw.get('axis')), self._kd2(kw))
            if name == 'dot': return self.dot([o] + list(args), kw)
            if name == 'cumsum': return self.n_cumsum([o], kw)
            if name == 'transpose': return self.transpose(o)
            if name == 'squeeze': return self.n_squeeze([o], {})
            if name == 'item':
                v = self.scal(o)
                if args: return self.getitem(self.ravel(o), args[0])
                return v
            if name == 'fill':
                it.write_event(o, 'fill'); v = self.scal(args[0])
                it.set_content(o, {q: v.node for q in it.content(o)}); return NONE
            if name in ('sort', 'resize', 'put', 'itemset', 'partition', 'setfield', 'byteswap'):
                it.write_event(o, '.' + name + '()')
                if isinstance(o, Arr): it.set_content(o, {q: g.mk('sort', (n,), o.shape) for q, n in it.content(o).items()})
                return NONE
            if name == 'clip': return self.n_clip([o] + list(args), kw)
            if name == 'round': return self.unary(lambda n: g.fn('round', n), o)
            if name == 'conj' or name == 'conjugate': return o
            if name == 'view': return o
            if name == 'nonzero': return self.n_where([o], {})
            if name == 'repeat': return self.n_repeat([o] + list(args), kw)
            if name == 'is_integer': return Num(g.fn('is_integer', self.scal(o).node))
            if name == 'setflags': return NONE
            if name in ('take', 'swapaxes', 'trace', 'diagonal', 'var', 'ptp', 'compress', 'cumprod', 'argsort', 'searchsorted', 'choose'):
                return self.call_ext('numpy.' + name, [o] + list(args), kw)
            return self.opaque_result('method.' + name, [o] + list(args), kw)
        if isinstance(obj, PyC) and isinstance(obj.v, str):
            if name in ('lower', 'upper', 'strip', 'title', 'capitalize'): return PyC(getattr(obj.v, name)())
            if name in ('startswith', 'endswith') and isinstance(args[0], PyC): return it.num(getattr(obj.v, name)(args[0].v))
            if name == 'join' and len(args) == 1:
                ai = it.as_iter(args[0])
                cs = [self.concrete(x) for x in ai] if isinstance(ai, list) else [None]
            else: cs = [self.concrete(x) for x in args]
            ck = {q: self.concrete(x) for q, x in kw.items()}
            if None not in cs and None not in ck.values() and hasattr(obj.v, name):
                try: r = getattr(obj.v, name)(*([[x[0] for x in cs]] if name == 'join' else [x[0] for x in cs]), **{q: x[0] for q, x in ck.items()})
                except Exception: return Unk('str')
                if isinstance(r, str): return PyC(r)
                if isinstance(r, (bool, int)): return it.num(r)
                if isinstance(r, (list, tuple)) and all(isinstance(x, str) for x in r):
                    return it.lst([PyC(x) for x in r]) if isinstance(r, list) else Tup([PyC(x) for x in r])
            return Unk('str')
        if isinstance(obj, Lst) or (isinstance(obj, Inst) and name in LISTMETHODS):
            o = it.obj(obj)
            if name in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse'):
                it.obj_write_event(obj, '.' + name)
                if isinstance(obj, Inst): it.event('listmut', oid=obj.oid, cls=obj.cls.name, how=name, args=args)
            if name == 'append':
                o['items'] = o['items'] + [args[0]]; return NONE
            if name == 'extend':
                ai = it.as_iter(args[0])
                if isinstance(ai, list): o['items'] = o['items'] + ai
                elif isinstance(ai, AbsIter) and not o['items'] and not o.get('abs'): o['abs'] = ai
                else: it.unsup('extend')
                return NONE
            if name == 'insert':
                l = list(o['items']); c = g.cval(args[0].node) if isinstance(args[0], Num) else None
                if c is None: it.unsup('insert'); return NONE
                l.insert(int(c), args[1]); o['items'] = l; return NONE
            if name == 'pop':
                l = list(o['items'])
                if l and (not args or g.cval(args[0].node) is not None):
                    v = l.pop(*( [int(g.cval(args[0].node))] if args else []))
                    o['items'] = l; return v
                return Unk('pop')
            if name == 'clear': o['items'] = []; o['abs'] = None; return NONE
            if name == 'reverse': o['items'] = o['items'][::-1]; return NONE
            if name == 'copy': return it.lst(o['items'])
            if name == '__len__': return self.b_len([obj], {})
            if name == '__iter__': return obj
            if name == 'sort' and not o.get('abs') and len(o['items']) < 2: return NONE
            if name in ('sort', 'remove'): it.unsup('list.' + name); return NONE
            return Unk('list.' + name)
        if isinstance(obj, Dct):
            d = it.obj(obj)['d']
            if name == 'get':
                kx = it.hkey(args[0])
                return d.get(kx, args[1] if len(args) > 1 else NONE)
            if name == 'keys': return it.lst([it.unkey(x) for x in d])
            if name == 'values': return it.lst(list(d.values()))
            if name == 'items': return it.lst([Tup([it.unkey(x), v]) for x, v in d.items()])
            if name == 'copy': return it.dct(d)
            if name == 'update':
                it.obj_write_event(obj, '.update')
                nd = dict(d)
                if args and isinstance(args[0], Dct): nd.update(it.obj(args[0])['d'])
                nd.update(kw); it.obj(obj)['d'] = nd; return NONE
            if name == 'setdefault':
                kx = it.hkey(args[0])
                if kx not in d:
                    it.obj_write_event(obj, '.setdefault')
                    nd = dict(d); nd[kx] = args[1] if len(args) > 1 else NONE; it.obj(obj)['d'] = nd
                return it.obj(obj)['d'][kx]
            if name == 'pop':
                it.obj_write_event(obj, '.pop')
                nd = dict(d); v = nd.pop(it.hkey(args[0]), args[1] if len(args) > 1 else Unk('pop')); it.obj(obj)['d'] = nd; return v
            return Unk('dict.' + name)
        if isinstance(obj, Tup) and name.startswith('super.'):
            inst = obj.items[0]; nm = name[6:]
            o = it.obj(inst)
            if nm == '__init__':
                if args:
                    ai = it.as_iter(args[0])
                    it.event('listmut', oid=inst.oid, cls=inst.cls.name, how='__init__', args=args)
                    if isinstance(ai, list): o['items'] = list(ai)
                    elif isinstance(ai, AbsIter): o['abs'] = ai
                return NONE
            if nm in LISTMETHODS: return self.call_method(inst, nm, args, kw)
            return Unk('super method')
        if isinstance(obj, Tup):
            if name in ('index', 'count'): return Unk('tuple.' + name)
            return Unk('tuple method')
        if isinstance(obj, ExtObj):
            it.event('extcall', name=obj.name + '.' + name, args=args, kw=kw)
            return self.opaque_result(obj.name + '.' + name, [obj] + list(args), kw)
        if isinstance(obj, PyC):
            it.event('noneop', detail='method %s of %r' % (name, obj.v))
            return Unk('method of None')
        if isinstance(obj, Unk): return obj
        return Unk('method ' + name)

NUMERIC = {'numpy', 'math', 'scipy', 'builtins', 'functools', 'itertools', 'operator', 'method', 'cross', 'repeat', 'copy', 'collections'}
CONST = {'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.inf': INF, 'numpy.Inf': INF, 'math.inf': INF, 'numpy.nan': float('nan'), 'numpy.NaN': float('nan'), 'math.nan': float('nan'),
         'numpy.e': math.e, 'math.e': math.e, 'numpy.NAN': float('nan'), 'numpy.infty': INF, 'sys.maxsize': 2**63-1}

def prod(l):
    p = 1
    for x in l: p *= x
    return p
def fmt(sh):
    def f(a):
        if isinstance(a, tuple):
            if a[0] == 'sub': return 'subset(%s)' % ','.join(map(f, a[1]))
            if a[0] == 'shorter': return '%s-%d' % (f(a[1]), a[2])
            if a[0] == 'sl': return 'slice(%s)' % f(a[1])
            return str(a[0])
        return {'P': 'points', 'Pf': 'flat points'}.get(a, str(a))
    return '(' + ','.join(f(a) for a in sh) + ')'
def flat(a): return 'Pf' if a == 'P' else a
def unflat(a): return 'P' if a == 'Pf' else a
def isintlike(n):
    if n.op in ('dim', 'iota', 'loopidx'): return True
    if n.op == 'const': return isinstance(n.attr, int)
    if n.op in ('+', '*'): return all(isintlike(a) for a in n.args)
    if n.op == 'fn' and n.attr in ('floor', 'ceil', 'int', 'round', 'floordiv'): return True
    return False

dtypes.install(NP)
