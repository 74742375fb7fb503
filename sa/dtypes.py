"""Element types of arrays: which arrays may hold integers because they were made from integer inputs.

The type of a value is 'f' (floating point for certain), a frozenset of argument names (integers if those
arguments are integers; empty: integers always) or None (not known: nothing is claimed).  Storing into an array
of integers something that is not an integer under the same condition cuts off its decimals; numpy does so
silently for stores and refuses it for in-place arithmetic."""
import re
from .interp import Num, Arr, Ext, ExtObj, PyC, Tup, Lst

FLOATFN = {'sqrt', 'sin', 'cos', 'tan', 'arctan', 'arctan2', 'arcsin', 'arccos', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'cbrt', 'log10', 'hypot', 'ellipk', 'ellipe'}

def base(name): return re.sub(r'\[.*$', '', str(name))

THROUGH = {'+', '*', 'sel', 'mu', 'sum', 'at', 'upd', 'updx', 'updsl', 'updf', 'red', 'sort', 'gather', 'slice', 'rev', 'concat', 'cumsum', 'last', 'outer'}
OUTPUT = {'/', 'kout', 'sout', 'wtu', 'linspace', 'interp', 'cumtrapz', 'argmin', 'bound'}

def surelyfloat(n, seen):
    """some operand that the value carries over is floating point"""
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in OUTPUT: return True
        if x.op == 'const' and isinstance(x.attr, float) and (abs(x.attr) > 1e300 or x.attr != int(x.attr)): return True
        if x.op == 'fn' and x.attr in FLOATFN: return True
        if x.op == 'fn' and x.attr in ('abs', 'max', 'min', 'maximum', 'minimum'): st += x.args
        if x.op == 'pow':
            e = x.args[1]
            if e.op == 'const' and isinstance(e.attr, float) and e.attr != int(e.attr): return True
            st.append(x.args[0])
        elif x.op == 'red' and 'mean' in str(x.attr): return True
        elif x.op in THROUGH: st += x.args[1:] if x.op == 'sel' else x.args
    return False

def nodetype(g, n, memo=None):
    if surelyfloat(n, set()): return 'f'
    memo = {} if memo is None else memo
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        kids = [a for a in (x.args if x.op in ('+', '*', '/') else x.args[1:] if x.op == 'sel' else x.args[:1] if x.op == 'pow' else ()) if a.id not in memo]
        if kids: st += kids; continue
        memo[x.id] = _type(x, memo); st.pop()
    return memo[n.id]

def _type(x, memo):
    if x.op == 'input': return frozenset([base(x.attr[1])]) if x.attr and x.attr[0] == 'num' else None
    if x.op == 'const': return frozenset() if x.attr == -1 else None
    if x.op == '/': return 'f'
    if x.op == 'fn': return 'f' if x.attr in FLOATFN else None
    if x.op in ('+', '*'): return combine([memo[a.id] for a in x.args])
    if x.op == 'sel': return combine([memo[a.id] for a in x.args[1:]])
    if x.op == 'pow':
        e = x.args[1]
        t = memo[x.args[0].id]
        if e.op == 'const' and isinstance(e.attr, int) and e.attr >= 0: return t
        if e.op == 'const' and isinstance(e.attr, float) and e.attr != int(e.attr): return 'f'
        return t if t == 'f' else None
    if x.op in ('dim', 'iota', 'loopidx'): return frozenset()
    return None

def combine(ts):
    if any(t == 'f' for t in ts): return 'f'
    if any(t is None for t in ts): return None
    return frozenset().union(*ts)

def typeof(np_, v):
    if isinstance(v, Num):
        return v.dt if v.dt is not None else nodetype(np_.g, v.node)
    if isinstance(v, Arr):
        if v.dt is not None: return v.dt
        c = np_.it.content(v)
        memo = {}
        return combine([nodetype(np_.g, n, memo) for n in c.values()]) if c else None
    return None

def tag(v, t):
    if t is not None and isinstance(v, (Num, Arr)): v.dt = t
    return v

def fresh(v, t):
    """the same value (same memory) of type t"""
    if isinstance(v, Num): r = Num(v.node); r.dt = t; return r
    if isinstance(v, Arr): r = Arr(v.cell, v.shape); r.dt = t; return r
    return v

NARROW = r'(^|\.)(float(16|32)|half|single|complex64|u?int(8|16|32)|[<>=|]?[fiu][124]|[<>=|]?[ehbH]|[<>=|]?c8)$'

def dtype(np_, d):
    """type meant by a dtype argument"""
    if getattr(d, 'types', None) is not None: return combine([typeof(np_, s) if isinstance(s, (Num, Arr)) else dtype(np_, s) for s in d.types])
    s = getattr(d, 'src', None)
    if s is not None: return typeof(np_, s)
    n = d.name if isinstance(d, (Ext, ExtObj)) else d.v if isinstance(d, PyC) else ''
    n = str(n)
    if re.search(NARROW, n): np_.it.event('narrow', detail=n.split('.')[-1])
    if re.search(r'(^|\.)u?int(\d+|_|c|p|er)?$', n) or re.match(r'^[<>=|]?[iu]\d*$', n) or n.endswith('bool') or n.endswith('bool_'): return frozenset()
    return 'f'

def dtarg(a, k, pos):
    if 'dtype' in k: d = k['dtype']
    elif len(a) > pos: d = a[pos]
    else: return None
    return None if isinstance(d, PyC) and d.v is None else d

def cut(np_, v, t):
    """v converted to the type t, that of arguments which may be integers"""
    if not isinstance(t, frozenset) or not t or not isinstance(v, (Num, Arr)): return
    tv = typeof(np_, v)
    if tv == 'f' or isinstance(tv, frozenset) and not tv <= t:
        np_.it.event('trunc', cell=getattr(v, 'cell', None), ints=sorted(t), value='floating point' if tv == 'f' else 'made from ' + ', '.join(sorted(tv - t)))

def install(C):
    def result_type(self, a, k):
        e = ExtObj('dtype'); e.types = [x for x in a]; return e
    for nm in ('n_result_type', 'n_promote_types', 'n_common_type'): setattr(C, nm, result_type)
    def wrap(name, make):
        o = getattr(C, name, None)
        if o is not None: setattr(C, name, make(o))
    def binop(o):
        def f(self, op, a, b):
            r = o(self, op, a, b)
            if not isinstance(r, (Num, Arr)): return r
            if not isinstance(a, (Num, Arr)) or not isinstance(b, (Num, Arr)): return r
            if op == 'Div': t = 'f'
            elif op in ('Add', 'Sub', 'Mult', 'MatMult', 'FloorDiv', 'Mod'): t = combine([typeof(self, a), typeof(self, b)])
            elif op == 'Pow':
                ta, tb = typeof(self, a), typeof(self, b)
                t = combine([ta, tb])
                cb = self.g.cval(b.node) if isinstance(b, Num) else None
                if isinstance(t, frozenset):
                    if isinstance(cb, (int, float)) and cb < 0:
                        if isinstance(a, Arr): self.it.event('intneg', detail=cb)
                        t = None
            else: return r
            return tag(r, t)
        return f
    wrap('binop', binop)
    for nm, pos in (('n_zeros_like', 1), ('n_ones_like', 1), ('n_empty_like', 1), ('n_full_like', 2)):
        def mk(o, pos=pos):
            def f(self, a, k):
                r = o(self, a, k); d = dtarg(a, k, pos)
                return tag(r, dtype(self, d) if d is not None else typeof(self, self.to_arr(a[0])))
            return f
        wrap(nm, mk)
    for nm, pos in (('n_zeros', 1), ('n_ones', 1), ('n_empty', 1), ('n_eye', 9), ('n_identity', 1), ('n_linspace', 9), ('n_full', 2)):
        def mk(o, pos=pos, nm=nm):
            def f(self, a, k):
                r = o(self, a, k); d = dtarg(a, k, pos)
                if d is not None: return tag(r, dtype(self, d))
                if nm == 'n_full': return tag(r, typeof(self, self.to_arr(a[1] if len(a) > 1 else k['fill_value'])))
                return tag(r, 'f')
            return f
        wrap(nm, mk)
    for nm in ('n_array', 'n_asarray', 'n_asanyarray', 'n_ascontiguousarray', 'n_asfarray', 'n_copy', 'n_require'):
        def mk(o, nm=nm):
            def f(self, a, k):
                r = o(self, a, k); d = dtarg(a, k, 1)
                if isinstance(r, Arr) and r.dt is None and isinstance(a[0], Num): tag(r, a[0].dt)
                if nm == 'n_asfarray': return fresh(r, 'f')
                if d is None: return r
                t = dtype(self, d)
                cut(self, a[0], t)
                if t == frozenset():
                    n = getattr(d, 'name', '')
                    if 'bool' in str(n): return fresh(self.unary(self.g.truth, r), t)
                    return fresh(self.unary(lambda x: x if self.isint(x) else self.g.fn('int', x), r), t)
                return fresh(r, t)
            return f
        wrap(nm, mk)
    for nm in ('ravel', 'reshape', 'getitem'):
        def mk(o):
            def f(self, v, *a, **k):
                t = typeof(self, v) if isinstance(v, (Num, Arr)) and v.dt is not None else None
                r = o(self, v, *a, **k)
                return tag(r, t) if r is not v else r
            return f
        wrap(nm, mk)
    def method(o):
        def f(self, obj, name, args, kw):
            r = o(self, obj, name, args, kw)
            if isinstance(obj, (Num, Arr)) and isinstance(r, (Num, Arr)):
                if name == 'astype':
                    d = dtarg(args, kw, 0)
                    if d is not None:
                        t = dtype(self, d); cut(self, obj, t)
                        return fresh(r, t)
                elif name in ('copy', 'transpose', 'squeeze', 'swapaxes', 'repeat', 'take', 'sum', 'min', 'max', 'clip', 'item') and r is not obj and obj.dt is not None:
                    tag(r, obj.dt)
                elif name in ('mean', 'std'): tag(r, 'f')
            return r
        return f
    wrap('call_method', method)
    for nm in ('b_float', 'n_float64', 'n_float32', 'n_double', 'n_float16', 'n_half', 'n_single'):
        def mk(o, nm=nm):
            def f(self, a, k):
                r = o(self, a, k)
                if nm[2:] in ('float32', 'float16', 'half', 'single'): self.it.event('narrow', detail=nm[2:])
                return fresh(r, 'f') if isinstance(r, (Num, Arr)) else r
            return f
        wrap(nm, mk)
    def setitem(o):
        def f(self, b, i, v):
            if isinstance(b, Arr):
                tb = typeof(self, b)
                if isinstance(tb, frozenset):
                    tv = typeof(self, self.to_arr(v)) if not isinstance(v, PyC) else None
                    if tv == 'f' or isinstance(tv, frozenset) and not tv <= tb:
                        self.it.event('trunc', cell=b.cell, ints=sorted(tb), value='floating point' if tv == 'f' else 'made from ' + ', '.join(sorted(tv - tb)))
            return o(self, b, i, v)
        return f
    wrap('setitem', setitem)
