"""Abstract interpreter: Python source -> gated value graph (see ir.py).

No code of the analysed package is imported or run: modules are parsed with ast, and functions are
interpreted over value-graph nodes.  Branches on unknown conditions are both followed and joined
with sel(); loops of unknown length are summarised (map / sum / recurrence); calls to package
functions are inlined, except those declared opaque by the caller of the analysis.
"""
import ast, os, copy, itertools
from .ir import Graph, Node, isnum
from . import taint

class Unsupported(Exception):
    pass
class PathDead(Exception):
    pass

# ---------------------------------------------------------------- values
class Val(object): pass
class Num(Val):
    __slots__ = ('node', 'dt')
    def __init__(self, node): self.node = node; self.dt = None
class Arr(Val):
    __slots__ = ('cell', 'shape', 'dt')
    def __init__(self, cell, shape): self.cell = cell; self.shape = tuple(shape); self.dt = None
class PyC(Val):
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return 'PyC(%r)' % (self.v,)
NONE = PyC(None)
class Tup(Val):
    def __init__(self, items): self.items = list(items)
class Ref(Val):
    def __init__(self, oid): self.oid = oid
class Lst(Ref): pass
class Dct(Ref): pass
class Inst(Ref):
    def __init__(self, oid, cls): self.oid = oid; self.cls = cls
class Func(Val):
    def __init__(self, node, mod, fid, qual, cls=None):
        self.node = node; self.mod = mod; self.fid = fid; self.qual = qual; self.cls = cls
        self.defaults = []; self.kwdefaults = {}
class Bound(Val):
    def __init__(self, func, self_): self.func = func; self.self_ = self_
class Cls(Val):
    def __init__(self, name, mod, bases, attrs): self.name = name; self.mod = mod; self.bases = bases; self.attrs = attrs
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls): out += b.mro()
        return out
    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b.name for b in c.bases if isinstance(b, Ext)]
        return out
class Prop(Val):
    def __init__(self, fget=None, fset=None): self.fget = fget; self.fset = fset
class Mod(Val):
    def __init__(self, name): self.name = name
class Ext(Val):
    """external object/function, by dotted name"""
    def __init__(self, name): self.name = name
class ExtObj(Val):
    """opaque result of an external call"""
    def __init__(self, name, args=()): self.name = name; self.args = args
class Method(Val):
    """method of a builtin value"""
    def __init__(self, obj, name): self.obj = obj; self.name = name
class Phi(Val):
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class Unk(Val):
    def __init__(self, why=''):
        self.why = why
        taint.note('unknown value', why)
class Slice(Val):
    def __init__(self, lo, hi, st): self.lo = lo; self.hi = hi; self.st = st
class AbsIter(Val):
    """iterable of symbolic length: axis + function(loop index node) -> element value"""
    def __init__(self, axis, elem): self.axis = axis; self.elem = elem
class Super(Val):
    def __init__(self, cls, inst): self.cls = cls; self.inst = inst
class Undef(Val): pass
UNDEF = Undef()
class SelfCall(Val): pass

class State(object):
    __slots__ = ('frames', 'cells', 'objs', 'globals_')
    def __init__(self): self.frames = {}; self.cells = {}; self.objs = {}; self.globals_ = {}
    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cells = dict(self.cells)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        return s

class Event(object):
    def __init__(self, kind, loc, **kw):
        self.kind = kind; self.loc = loc; self.__dict__.update(kw)
    def __repr__(self):
        return 'Event(%s %s %s)' % (self.kind, self.loc, {k: v for k, v in self.__dict__.items() if k not in ('kind', 'loc', 'pc', 'loops')})

class Frame(object):
    def __init__(self, fid, func, mod):
        self.fid = fid; self.func = func; self.mod = mod
        self.returns = []      # (pcs since entry, value, state)
        self.pc0 = 0
        self.globals = set()
        self.loopflow = []

class Interp(object):
    MAXDEPTH = 80
    def __init__(self, repo, opaque=None, assume=None):
        from . import npmodel
        self.repo = repo
        self.g = Graph()
        self.st = State()
        self.modules = {}      # name -> dict env frame id
        self.opaque = opaque or {}
        self.assume = assume or {}   # truth of specific condition nodes, id -> bool
        self.events = []
        self.cached = []; self.atax = {}; self.cellview = {}; self.viewsof = {}; self._viewbusy = set()
        self.muted = 0
        self.pc = []           # path condition nodes
        self.loops = []        # active abstract loops [(axis, idxnode)]
        self.frames = []
        self.nfid = 0; self.ncell = 0; self.noid = 0
        self.cellorigin = {}   # cell -> set of tags
        self.objorigin = {}
        self.unsupported = []
        self.files = None
        self.depth = 0
        self.np = npmodel.NP(self)
        self.modsrc = {}
        self.calllog = set()
        self.stmt_count = 0
        self.modfid_names = {}
        self.written_globals = []
        self.cellhint = {}
        self.undef_names = []

    # ------------------------------------------------------------ infrastructure
    def loc(self):
        return self.g.curloc
    def event(self, kind, **kw):
        if self.muted: return None
        e = Event(kind, self.loc(), pc=list(self.pc), loops=list(self.loops), **kw)
        self.events.append(e)
        return e
    def issue(self, what, **kw):
        return self.event('issue', what=what, **kw)
    def unsup(self, msg, node=None):
        if not self.muted:
            self.unsupported.append((self.loc(), msg))
        taint.note('unmodelled', msg, self.loc())
        return Unk(msg)
    def new_cell(self, content, origin=()):
        self.ncell += 1
        self.st.cells[self.ncell] = content
        self.cellorigin[self.ncell] = set(origin)
        return self.ncell
    def arr(self, content, shape, origin=()):
        if isinstance(content, Node):
            conc = [range(a) for a in shape if isinstance(a, int)]
            content = {q: content for q in itertools.product(*conc)}
        return Arr(self.new_cell(content, origin), shape)
    def new_obj(self, d, origin=()):
        self.noid += 1
        self.st.objs[self.noid] = d
        self.objorigin[self.noid] = set(origin)
        return self.noid
    def lst(self, items, origin=()):
        return Lst(self.new_obj({'kind': 'list', 'items': list(items), 'abs': None}, origin))
    def dct(self, d, origin=()):
        return Dct(self.new_obj({'kind': 'dict', 'd': dict(d)}, origin))
    def inst(self, cls, attrs=None, origin=()):
        i = Inst(self.new_obj({'kind': 'inst', 'attrs': dict(attrs or {}), 'items': [], 'abs': None}, origin), cls)
        return i
    def obj(self, ref):
        return self.st.objs[ref.oid]
    def c(self, v): return self.g.const(v)
    def num(self, v): return Num(self.g.const(v))
    def content(self, a):
        return self.st.cells[a.cell]
    def set_content(self, a, content, what='store'):
        self.st.cells[a.cell] = content
        # views of the same memory
        busy = self._viewbusy
        if a.cell in busy: return
        busy.add(a.cell)
        try:
            up = self.cellview.get(a.cell)
            if up is not None and up[0].cell in self.st.cells and up[0].cell not in busy: up[2](a)
            for ref, base, fwd in self.viewsof.get(a.cell, ()):
                v = ref()
                if v is None or v.cell in busy or v.cell not in self.st.cells: continue
                n = fwd()
                if n is not None: self.set_content(v, n)
        finally: busy.discard(a.cell)
    def add_view(self, v, base, fwd, back):
        """v shares the memory of base; fwd(): content of v from base; back(v): store v into base"""
        if v.cell == base.cell: return v
        import weakref
        self.cellview[v.cell] = (base, fwd, back)
        l = self.viewsof.setdefault(base.cell, [])
        if len(l) > 64: l[:] = [x for x in l if x[0]() is not None]
        l.append((weakref.ref(v), base, fwd))
        return v
    def view_index(self, v, base, i):
        def fwd():
            n = self.np.getitem(base, i, view=False)
            return dict(self.content(n)) if isinstance(n, Arr) and n.shape == v_shape else None
        v_shape = v.shape
        return self.add_view(v, base, fwd, lambda w: self.np.setitem(base, i, w))
    def view_map(self, v, base, m):
        """m: key of v -> key of base"""
        def fwd():
            c = self.content(base); return {k: c[b] for k, b in m.items()} if all(b in c for b in m.values()) else None
        def back(w):
            c = dict(self.content(base)); d = self.content(w)
            for k, b in m.items(): c[b] = d[k]
            self.set_content(base, c)
        return self.add_view(v, base, fwd, back)
    def write_event(self, a, how):
        o = self.cellorigin.get(a.cell, set())
        if o: self.event('write', origins=frozenset(o), how=how, cell=a.cell)
    def obj_write_event(self, ref, how):
        o = self.objorigin.get(ref.oid, set())
        if o: self.event('write', origins=frozenset(o), how=how, cell=('o', ref.oid))

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(p + '.py'): return p + '.py'
        if os.path.isdir(p):
            q = os.path.join(p, '__init__.py')
            return q if os.path.isfile(q) else p
        return None
    def load_module(self, name, path=None):
        if name in self.modules: return self.modules[name]
        path = path or self.module_path(name)
        if path is None: return None
        fid = self.new_frame_id()
        self.modules[name] = fid
        self.modfid_names[fid] = name
        self.st.frames[fid] = {}
        if os.path.isdir(path): return fid
        with open(path, encoding='utf-8', errors='replace') as f: src = f.read()
        tree = ast.parse(src, path)
        rel = os.path.relpath(path, self.repo)
        self.modsrc[name] = (rel, tree)
        for n in ast.walk(tree):
            n._file = rel
        fr = Frame(fid, None, name)
        saved = (self.frames, self.pc, self.loops, self.g.curloc, self.depth)
        self.frames = self.frames + [fr]; self.pc = []; self.loops = []
        try:
            self.exec_block(tree.body)
        finally:
            self.frames, self.pc, self.loops, self.g.curloc, self.depth = saved
        for k, v in list(self.st.frames[fid].items()): self.tag_global(v, name + '.' + k)
        return fid
    def tag_global(self, v, name, depth=0):
        """memory that outlives a call"""
        if depth > 2: return
        if isinstance(v, Ref):
            self.objorigin[v.oid].add('global:' + name)
            o = self.obj(v)
            for x in list(o.get('items') or []) + list((o.get('d') or {}).values()) + list((o.get('attrs') or {}).values()): self.tag_global(x, name, depth + 1)
        elif isinstance(v, Arr): self.cellorigin[v.cell].add('global:' + name)
        elif isinstance(v, Tup):
            for x in v.items: self.tag_global(x, name, depth + 1)
        elif isinstance(v, Cls) and name.rsplit('.', 1)[-1] == v.name:
            for k, x in v.attrs.items(): self.tag_global(x, name + '.' + k, depth + 1)
    def new_frame_id(self):
        self.nfid += 1
        return self.nfid
    def modattr(self, modname, attr):
        fid = self.load_module(modname)
        if fid is None: return None
        v = self.st.frames[fid].get(attr)
        if v is None:
            sub = modname + '.' + attr
            if self.module_path(sub):
                self.load_module(sub)
                return Mod(sub)
        return v
    def func(self, modname, name):
        v = self.modattr(modname, name)
        return v

    # ------------------------------------------------------------ names
    def lookup(self, name):
        fr = self.frames[-1]
        fid = fr.fid
        if name in fr.globals:
            fid = self.modules[fr.mod]
        seen = 0
        while fid is not None:
            env = self.st.frames[fid]
            if name in env and env[name] is not UNDEF:
                return env[name]
            if name in env and env[name] is UNDEF and fid == fr.fid:
                break
            fid = env.get('$parent')
        from .npmodel import BUILTINS
        if name in BUILTINS:
            return Ext('builtins.' + name)
        if name == '__name__':
            return PyC(fr.mod)
        if name == '__file__':
            return PyC('file')
        self.event('undefname', name=name)
        if not self.muted: self.undef_names.append((self.loc(), name))
        return Unk('undefined name ' + name)
    def bind(self, name, v):
        fr = self.frames[-1]
        fid = fr.fid
        if name in fr.globals:
            fid = self.modules[fr.mod]
            self.event('globalwrite', name=fr.mod + '.' + name)
        nl = getattr(fr, 'nonlocals', ())
        if name in nl:
            f = self.st.frames[fid].get('$parent')
            while f is not None:
                if name in self.st.frames[f]:
                    fid = f; break
                f = self.st.frames[f].get('$parent')
        self.st.frames[fid][name] = v

    # ------------------------------------------------------------ join of values
    def join(self, c, a, b, sa, sb):
        """value after a branch on c; sa/sb are the branch states.  Result lives in self.st"""
        if a is b: 
            return a
        if a is UNDEF or b is UNDEF:
            return Phi(c, a, b)
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(self.g.sel(c, a.node, b.node))
        if isinstance(a, PyC) and isinstance(b, PyC) and a.v == b.v and type(a.v) == type(b.v): return a
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.cell == b.cell and a.shape == b.shape: return a
            ca, cb = sa.cells[a.cell], sb.cells[b.cell]
            if a.shape == b.shape and set(ca) == set(cb):
                r = self.arr({k: self.g.sel(c, ca[k], cb[k]) for k in ca}, a.shape, self.cellorigin[a.cell] | self.cellorigin[b.cell])
                return r
            return Phi(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.join(c, x, y, sa, sb) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid: return a
        # array vs scalar: broadcast
        if isinstance(a, Arr) and isinstance(b, Num):
            ca = sa.cells[a.cell]
            return Phi(c, a, b)
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.fid == b.fid: return a
        return Phi(c, a, b)
    def merge(self, c, s1, s2):
        """join of two states under condition c (s1 if c)"""
        if s1 is s2: return s1
        st = State()
        self.st = st
        # cells
        for k in set(s1.cells) | set(s2.cells):
            a, b = s1.cells.get(k), s2.cells.get(k)
            if a is None: st.cells[k] = b
            elif b is None: st.cells[k] = a
            elif a is b: st.cells[k] = a
            elif set(a) == set(b):
                st.cells[k] = {q: self.g.sel(c, a[q], b[q]) for q in a}
            else:
                st.cells[k] = {q: self.g.mk('unk', (), 'cell shape differs') for q in a}
        for k in set(s1.objs) | set(s2.objs):
            a, b = s1.objs.get(k), s2.objs.get(k)
            if a is None: st.objs[k] = b; continue
            if b is None: st.objs[k] = a; continue
            r = dict(a)
            if a['kind'] == 'inst' or a['kind'] == 'dict':
                f = 'attrs' if a['kind'] == 'inst' else 'd'
                if a[f] is not b[f]:
                    m = {}
                    for q in list(a[f]) + [x for x in b[f] if x not in a[f]]:
                        m[q] = self.join(c, a[f].get(q, UNDEF), b[f].get(q, UNDEF), s1, s2)
                    r[f] = m
            if 'items' in a and a['items'] is not b['items']:
                if len(a['items']) == len(b['items']):
                    r['items'] = [self.join(c, x, y, s1, s2) for x, y in zip(a['items'], b['items'])]
                else:
                    n = min(len(a['items']), len(b['items']))
                    long, cc = (a, c) if len(a['items']) > n else (b, self.g.not_(c))
                    r['items'] = [self.join(c, x, y, s1, s2) for x, y in zip(a['items'][:n], b['items'][:n])] + \
                                 [('opt', cc, x) for x in long['items'][n:]]
                    r['items'] = [x if not isinstance(x, tuple) else Phi(x[1], x[2], UNDEF) for x in r['items']]
            if a.get('abs') is not b.get('abs'):
                r['abs'] = a.get('abs') or b.get('abs')
            st.objs[k] = r
        for k in set(s1.frames) | set(s2.frames):
            a, b = s1.frames.get(k), s2.frames.get(k)
            if a is None: st.frames[k] = b; continue
            if b is None: st.frames[k] = a; continue
            m = {}
            for q in list(a) + [x for x in b if x not in a]:
                if q == '$parent': m[q] = a.get(q, b.get(q)); continue
                va, vb = a.get(q, UNDEF), b.get(q, UNDEF)
                m[q] = va if va is vb else self.join(c, va, vb, s1, s2)
            st.frames[k] = m
        return st

    # ------------------------------------------------------------ Phi lifting
    def lift(self, f, *vals):
        """apply f to values, distributing over Phi"""
        for i, v in enumerate(vals):
            if isinstance(v, Phi):
                known = self.known(v.c)
                if known is True: return self.lift(f, *(vals[:i] + (v.a,) + vals[i+1:]))
                if known is False: return self.lift(f, *(vals[:i] + (v.b,) + vals[i+1:]))
                if v.a is UNDEF: return self.lift(f, *(vals[:i] + (v.b,) + vals[i+1:]))
                if v.b is UNDEF: return self.lift(f, *(vals[:i] + (v.a,) + vals[i+1:]))
                s0 = self.st
                self.st = s0.copy(); self.pc.append(v.c)
                try:
                    a = self.lift(f, *(vals[:i] + (v.a,) + vals[i+1:])); dead1 = False
                except PathDead:
                    dead1 = True
                self.pc.pop()
                s1 = self.st
                self.st = s0.copy(); self.pc.append(self.g.not_(v.c))
                try:
                    b = self.lift(f, *(vals[:i] + (v.b,) + vals[i+1:])); dead2 = False
                except PathDead:
                    dead2 = True
                self.pc.pop()
                s2 = self.st
                if dead1 and dead2: raise PathDead()
                if dead1: self.st = s2; return b
                if dead2: self.st = s1; return a
                self.st = self.merge(v.c, s1, s2)
                return self.join(v.c, a, b, s1, s2)
        return f(*vals)
    def known(self, c):
        """truth of condition node under the current path condition, if decided"""
        if c.op == 'bool': return c.attr
        if c.id in self.assume: return self.assume[c.id]
        n = self.g.not_(c)
        for p in self.pc:
            if self._implies(p, c): return True
            if self._implies(p, n): return False
        if c.op == 'and':
            r = [self.known(a) for a in c.args]
            if False in r: return False
            if all(x is True for x in r): return True
        if c.op == 'or':
            r = [self.known(a) for a in c.args]
            if True in r: return True
            if all(x is False for x in r): return False
        if c.op == 'not':
            r = self.known(c.args[0])
            return None if r is None else (not r)
        return None
    def _implies(self, p, c):
        if p is c: return True
        if p.op == 'and': return any(self._implies(a, c) for a in p.args)
        return False

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)
    def setloc(self, node):
        fr = self.frames[-1] if self.frames else None
        self.g.curloc = (getattr(node, '_file', '?'), getattr(node, 'lineno', 0), fr.func.qual if fr and fr.func else '<module>')
    def exec_stmt(self, s):
        self.setloc(s)
        self.stmt_count += 1
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.unsup('statement ' + type(s).__name__)
            return
        m(s)
    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value)
    def st_Pass(self, s): pass
    def st_Global(self, s):
        self.frames[-1].globals.update(s.names)
    def st_Nonlocal(self, s):
        fr = self.frames[-1]
        fr.nonlocals = set(getattr(fr, 'nonlocals', ())) | set(s.names)
    def st_Import(self, s):
        for a in s.names:
            nm = a.name
            top = nm.split('.')[0]
            if self.module_path(nm) and top in ('wiz',):
                self.load_module(nm)
                self.bind(a.asname or top, Mod(nm if a.asname else top))
            else:
                base = self.frames[-1].mod.rsplit('.', 1)[0] if self.frames[-1].mod else ''
                self.bind(a.asname or top, Ext(nm if a.asname else top))
    def st_ImportFrom(self, s):
        if s.module == '__future__': return
        fr = self.frames[-1]
        if s.level:
            base = fr.mod.split('.')[:-s.level] if not fr.mod.endswith('.__init__') else fr.mod.split('.')[:-1]
            name = '.'.join(base + ([s.module] if s.module else []))
            if not base and s.level:
                raise ImportFail()
        else:
            name = s.module
        if self.module_path(name) is not None and (s.level or name.split('.')[0] in ('wiz',)):
            fid = self.load_module(name)
            for a in s.names:
                if a.name == '*':
                    for k, v in list(self.st.frames[fid].items()):
                        if not k.startswith('_') and not k.startswith('$'): self.bind(k, v)
                    continue
                v = self.modattr(name, a.name)
                if v is None:
                    self.event('undefname', name=name + '.' + a.name)
                    if not self.muted: self.undef_names.append((self.loc(), name + '.' + a.name))
                    v = Unk('missing import ' + a.name)
                self.bind(a.asname or a.name, v)
        else:
            if s.level:
                raise ImportFail()
            if name.split('.')[0] not in KNOWN_EXT:
                # sibling module of the same directory used as a script?
                base = fr.mod.rsplit('.', 1)[0] if '.' in fr.mod else ''
                if base and self.module_path(base + '.' + name):
                    raise ImportFail()
                raise ImportFail() if name.split('.')[0] in ('pybra',) else None or ImportFail() if self._in_try() else ImportFail()
            for a in s.names:
                if a.name == '*': continue
                self.bind(a.asname or a.name, Ext(name + '.' + a.name))
    def _in_try(self): return getattr(self, '_trydepth', 0) > 0
    def st_FunctionDef(self, s):
        fr = self.frames[-1]
        cls = getattr(fr, 'cls', None)
        parentq = fr.func.qual + '.' if fr.func else (cls.name + '.' if cls else '')
        f = Func(s, fr.mod, fr.fid, parentq + s.name if not cls else cls.name + '.' + s.name, cls)
        self.eval_defaults(f, s.args)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s.name)
        if cls is not None: cls.attrs[s.name] = v
        else: self.bind(s.name, v)
    def eval_defaults(self, f, args):
        for i, d in enumerate(args.defaults):
            v = self.ev(d)
            f.defaults.append(v)
            self.tag_default(v, f)
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                f.kwdefaults[a.arg] = self.ev(d)
                self.tag_default(f.kwdefaults[a.arg], f)
    def tag_default(self, v, f):
        if isinstance(v, Ref): self.objorigin[v.oid].add('default:' + f.qual)
        if isinstance(v, Arr): self.cellorigin[v.cell].add('default:' + f.qual)
    def decorate(self, d, v, name):
        if isinstance(d, ast.Name) and d.id == 'property': return Prop(v)
        if isinstance(d, ast.Name) and d.id in ('staticmethod',):
            v.static = True
            return v
        if isinstance(d, ast.Name) and d.id == 'classmethod':
            v.classm = True
            return v
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter') and isinstance(d.value, ast.Name):
            cls = self.frames[-1].cls
            p = cls.attrs.get(d.value.id)
            if isinstance(p, Prop):
                return Prop(p.fget if d.attr != 'getter' else v, v if d.attr == 'setter' else p.fset)
        dv = self.ev(d)
        dn = dv.name if isinstance(dv, (Ext, ExtObj)) else ''
        if isinstance(v, Func) and isinstance(dn, str) and 'cache' in dn: self.cached.append((v.qual, self.loc(), self.frames[-1].cls is not None if hasattr(self.frames[-1], 'cls') else False))
        if isinstance(dv, (Func, Bound)):
            return self.call(dv, [v], {})
        return v   # caching/vectorising decorators: noted
    def st_AsyncFunctionDef(self, s): self.unsup('async')
    def st_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in s.bases]
        cls = Cls(s.name, fr.mod, bases, {})
        self.bind(s.name, cls)
        if any(isinstance(b, Ext) and b.name.startswith('unittest') for b in bases): return
        fid = self.new_frame_id()
        self.st.frames[fid] = {'$parent': fr.fid}
        f2 = Frame(fid, None, fr.mod); f2.cls = cls
        self.frames.append(f2)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        for k, v in self.st.frames[fid].items():
            if not k.startswith('$'): cls.attrs.setdefault(k, v)
        # methods resolve free names in the module, not in the class body
        for v in cls.attrs.values():
            for f in ([v.fget, v.fset] if isinstance(v, Prop) else [v]):
                if isinstance(f, Func): f.fid = fr.fid; f.cls = cls
    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        fr = self.frames[-1]
        fr.returns.append((list(self.pc[fr.pc0:]), v, self.st))
        raise PathDead()
    def st_Raise(self, s):
        name = '?'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func)
                for a in e.args:
                    self.muted += 1
                    try: self.ev(a)
                    finally: self.muted -= 1
            else: name = ast.unparse(e)
        self.setloc(s)
        self.event('raise', exc=name)
        self.last_raise = name
        raise PathDead()
    def st_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.setloc(s)
        self.pc.append(self.g.not_(c)); self.event('raise', exc='AssertionError', cond=c); self.pc.pop()
        if c.op == 'bool' and c.attr is False: raise PathDead()
        self.pc.append(c)
    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name): self.st.frames[self.frames[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                if isinstance(b, Ref): self.obj_write_event(b, 'del')
                if isinstance(b, Dct):
                    k = self.hkey(self.ev(t.slice))
                    self.obj(b)['d'] = {q: v for q, v in self.obj(b)['d'].items() if q != k}
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                if isinstance(b, Inst):
                    self.attr_event('w', b, t.attr)
                    a = dict(self.obj(b)['attrs']); a.pop(t.attr, None); self.obj(b)['attrs'] = a
    def st_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        self.exec_block(s.body)
    def st_Try(self, s):
        self._trydepth = getattr(self, '_trydepth', 0) + 1
        s0 = self.st.copy()
        isimport = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
        nret = len(self.frames[-1].returns)
        pc0 = list(self.pc)
        dead = False
        nev = len(self.events)
        try:
            try:
                self.exec_block(s.body)
                if s.orelse: self.exec_block(s.orelse)
            except PathDead:
                dead = True
            except ImportFail:
                self.st = s0
                if s.handlers: self.exec_block(s.handlers[0].body)
                if s.finalbody: self.exec_block(s.finalbody)
                return
        finally:
            self._trydepth -= 1
        if isimport and not dead:
            if s.finalbody: self.exec_block(s.finalbody)
            return
        if s.handlers:
            # an exception may come from anywhere in the body
            for e in self.events[nev:]:
                if e.kind == 'raise': e.caught = True
            c = self.g.mk('exc', (), (getattr(s, '_file', '?'), s.lineno))
            s1 = self.st
            self.st = s0.copy()
            pc1 = self.pc
            self.pc = pc0 + [c]
            hdead = False
            try:
                h = s.handlers[0]
                if h.name: self.bind(h.name, Unk('exception'))
                self.exec_block(h.body)
            except PathDead:
                hdead = True
            s2 = self.st
            self.pc = pc0
            if dead and hdead:
                raise PathDead()
            if dead: self.st = s2; self.pc = self.pc + [c]
            elif hdead: self.st = s1; self.pc = self.pc + [self.g.not_(c)]
            else: self.st = self.merge(c, s2, s1)
        elif dead:
            if s.finalbody: self.exec_block(s.finalbody)
            raise PathDead()
        if s.finalbody: self.exec_block(s.finalbody)
    def st_If(self, s):
        c = self.truth(self.ev(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))
    def branch(self, c, fa, fb):
        k = self.known(c)
        if k is True: fa(); return
        if k is False: fb(); return
        s0 = self.st
        base = list(self.pc)
        self.st = s0.copy(); self.pc = base + [c]
        d1 = d2 = False
        x1 = x2 = None
        try: fa()
        except PathDead: d1 = True
        s1, pc1 = self.st, self.pc
        nc = self.g.not_(c)
        self.st = s0.copy(); self.pc = base + [nc]
        try: fb()
        except PathDead: d2 = True
        s2, pc2 = self.st, self.pc
        if d1 and d2:
            self.pc = base
            raise PathDead()
        if d1: self.st = s2; self.pc = pc2; return
        if d2: self.st = s1; self.pc = pc1; return
        self.pc = base
        # facts learnt inside one branch only are dropped
        self.st = self.merge(c, s1, s2)
    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)
    def st_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
    def st_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.ev(s.value)
            self.setloc(s)
            def f(cur, v):
                if isinstance(cur, Arr):
                    r = self.binop(op, cur, v)
                    self.setloc(s)
                    self.castcheck(cur, r)
                    if isinstance(r, Arr):
                        if r.shape != cur.shape and not self.np.same_shape(r.shape, cur.shape):
                            self.issue('shape', detail='in-place update changes shape %s -> %s' % (cur.shape, r.shape))
                        self.write_event(cur, 'augmented assignment')
                        self.set_content(cur, self.content(r))
                    return cur
                if isinstance(cur, Lst) and op == 'Add':
                    self.obj_write_event(cur, '+=')
                    o = self.obj(cur); o['items'] = o['items'] + self.seq(v); return cur
                return self.binop(op, cur, v)
            self.bind(t.id, self.lift(f, cur, v))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            cur = self.getattr(b, t.attr)
            v = self.ev(s.value); self.setloc(s)
            if isinstance(cur, Arr):
                r = self.binop(op, cur, v)
                self.castcheck(cur, r)
                self.write_event(cur, 'augmented assignment')
                if isinstance(r, Arr): self.set_content(cur, self.content(r))
                self.setattr(b, t.attr, cur)
            else:
                self.setattr(b, t.attr, self.binop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value); i = self.ev_index(t.slice)
            cur = self.getitem(b, i)
            v = self.ev(s.value); self.setloc(s)
            self.setitem(b, i, self.binop(op, cur, v))
    def castcheck(self, cur, r):
        from . import dtypes
        tc, tr = dtypes.typeof(self.np, cur), dtypes.typeof(self.np, r)
        if isinstance(tc, frozenset) and (tr == 'f' or isinstance(tr, frozenset) and not tr <= tc):
            self.event('castfail', cell=cur.cell, ints=sorted(tc), value='floating point' if tr == 'f' else 'made from ' + ', '.join(sorted(tr - tc)))
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
            if isinstance(v, Arr): self.cellhint.setdefault(v.cell, t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts) if not star else None)
            if star:
                i = star[0]; after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]): self.assign(e, x)
                self.assign(t.elts[i].value, self.lst(items[i:len(items)-after]))
                for e, x in zip(t.elts[i+1:], items[len(items)-after:]): self.assign(e, x)
            else:
                for e, x in zip(t.elts, items): self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value); self.setattr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value); i = self.ev_index(t.slice)
            self.setitem(b, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
    def unpack(self, v, n):
        if isinstance(v, Phi):
            k = self.known(v.c)
            if k is True or v.b is UNDEF: return self.unpack(v.a, n)
            if k is False or v.a is UNDEF: return self.unpack(v.b, n)
            a = self.unpack(v.a, n); b = self.unpack(v.b, n)
            m = min(len(a), len(b))
            return [self.join(v.c, x, y, self.st, self.st) for x, y in zip(a[:m], b[:m])]
        try:
            items = self.seq(v)
        except Unsupported:
            self.unsup('cannot unpack %s' % type(v).__name__)
            return [Unk('unpack')] * (n or 1)
        if n is not None and len(items) != n:
            self.issue('arity', detail='unpacking %d values into %d names' % (len(items), n))
            raise PathDead()
        return items
    def seq(self, v):
        """concrete sequence of values"""
        if isinstance(v, Tup): return list(v.items)
        if isinstance(v, Ref) and self.obj(v).get('items') is not None and self.obj(v)['kind'] in ('list', 'inst'):
            if self.obj(v).get('abs'): raise Unsupported('abstract list')
            return list(self.obj(v)['items'])
        if isinstance(v, Dct): return [self.unkey(k) for k in self.obj(v)['d']]
        if isinstance(v, Arr) and v.shape and isinstance(v.shape[0], int):
            return [self.getitem(v, self.num(i)) for i in range(v.shape[0])]
        if isinstance(v, PyC) and isinstance(v.v, str): return [PyC(ch) for ch in v.v]
        raise Unsupported('sequence of ' + type(v).__name__)
    def unkey(self, k):
        if isinstance(k, str): return PyC(k)
        if k is None: return NONE
        if isinstance(k, tuple): return Tup([self.unkey(x) for x in k])
        return self.num(k)
    def hkey(self, v):
        if isinstance(v, PyC): return v.v
        if isinstance(v, Num):
            c = self.g.cval(v.node)
            if c is not None: return c
            return ('node', v.node.id)
        if isinstance(v, Tup): return tuple(self.hkey(x) for x in v.items)
        return ('val', id(v))

    # ------------------------------------------------------------ loops
    def st_For(self, s):
        it = self.ev(s.iter)
        self.setloc(s)
        self.for_loop(s, it)
    def for_loop(self, s, it):
        if isinstance(it, Phi):
            c = it.c
            k = self.known(c)
            if k is True or it.b is UNDEF: return self.for_loop(s, it.a)
            if k is False or it.a is UNDEF: return self.for_loop(s, it.b)
            self.branch(c, lambda: self.for_loop(s, it.a), lambda: self.for_loop(s, it.b))
            return
        ai = self.as_iter(it)
        if isinstance(ai, list):
            self.unrolled(s, ai)
        elif isinstance(ai, AbsIter):
            self.abs_loop(s, ai)
        else:
            self.unsup('loop over ' + type(it).__name__)
            self.abs_loop(s, AbsIter(('cnt', 'unknown@%d' % s.lineno), lambda i: Unk('loop element')))
    def unrolled(self, s, items):
        body = normalise_loop_body(s.body)
        brk = None     # condition under which a break has happened
        fr = self.frames[-1]
        for x in items:
            # optional element (list built conditionally)
            if isinstance(x, Phi) and x.b is UNDEF:
                cond, val = x.c, x.a
                def run(val=val):
                    self.assign(s.target, val); self.loop_body(body)
                self.branch(cond, run, lambda: None)
                continue
            if not any(isinstance(b, (ast.Break, ast.Continue)) for q in body for b in ast.walk(q)):
                self.assign(s.target, x)
                self.exec_block(body)
            else:
                flow = {'brk': []}
                fr.loopflow.append(flow)
                flow['pc0'] = len(self.pc)
                pcs = list(self.pc)
                try:
                    self.assign(s.target, x)
                    self.exec_block(body)
                    live = True
                except PathDead:
                    live = False
                fr.loopflow.pop()
                outs = flow['brk']       # (kind, conds, state)
                self.pc = pcs
                cont = [(c, st) for k, c, st in outs if k == 'c']
                brks = [(c, st) for k, c, st in outs if k == 'b']
                if not live and not outs: raise PathDead()
                st = self.st if live else None
                for c, s2 in cont:
                    st = s2 if st is None else self.merge(self.conj(c), s2, st)
                if brks:
                    # remaining iterations run only if no break was taken
                    bst = None
                    bc = self.g.const(False)
                    for c, s2 in brks:
                        cc = self.conj(c)
                        bst = s2 if bst is None else self.merge(cc, s2, bst)
                        bc = self.g.or_(bc, cc)
                    if st is None:
                        self.st = bst; return
                    self.st = st
                    rest = items[items.index(x)+1:]
                    base = list(self.pc); self.pc = base + [self.g.not_(bc)]
                    self.unrolled(s, rest)
                    self.pc = base
                    self.st = self.merge(bc, bst, self.st)
                    return
                self.st = st
        if s.orelse: self.exec_block(s.orelse)
    def loop_body(self, body): self.exec_block(body)
    def conj(self, cs):
        r = self.g.const(True)
        for c in cs: r = self.g.and_(r, c)
        return r
    def st_Break(self, s): self._flow('b')
    def st_Continue(self, s): self._flow('c')
    def _flow(self, k):
        fr = self.frames[-1]
        if not fr.loopflow: 
            self.unsup('break outside modelled loop'); raise PathDead()
        f = fr.loopflow[-1]
        f['brk'].append((k, list(self.pc[f['pc0']:]), self.st))
        raise PathDead()
    def as_iter(self, it):
        g = self.g
        if isinstance(it, AbsIter): return it
        if isinstance(it, Num):
            return None
        if isinstance(it, Ref):
            o = self.obj(it)
            if o.get('abs'):
                return o['abs']
            if o['kind'] == 'dict': return self.seq(it)
            return list(o['items'])
        if isinstance(it, Tup): return list(it.items)
        if isinstance(it, PyC) and isinstance(it.v, str): return [PyC(ch) for ch in it.v]
        if isinstance(it, Arr):
            if not it.shape: return None
            if isinstance(it.shape[0], int):
                return self.seq(it)
            ax = it.shape[0]
            cell, shape = it.cell, it.shape
            return AbsIter(ax, lambda i: self.getitem(Arr(cell, shape), Num(i)))
        if isinstance(it, ExtObj) and it.name == 'zip':
            subs = [self.as_iter(x) for x in it.args]
            if any(x is None for x in subs): return None
            if all(isinstance(x, list) for x in subs):
                n = min(len(x) for x in subs) if subs else 0
                return [Tup([x[i] for x in subs]) for i in range(n)]
            axs = [x.axis for x in subs if isinstance(x, AbsIter)]
            if len(set(axs)) > 1:
                self.issue('zip', detail='zip over different axes %s' % (sorted(set(map(str, axs))),))
            if any(isinstance(x, list) for x in subs): return None
            return AbsIter(axs[0], lambda i: Tup([x.elem(i) for x in subs]))
        if isinstance(it, ExtObj) and it.name == 'enumerate':
            sub = self.as_iter(it.args[0])
            st = it.args[1] if len(it.args) > 1 else self.num(0)
            if isinstance(sub, list):
                return [Tup([Num(g.add(st.node, g.const(i))), x]) for i, x in enumerate(sub)]
            if isinstance(sub, AbsIter):
                return AbsIter(sub.axis, lambda i: Tup([Num(g.add(st.node, i)), sub.elem(i)]))
            return None
        if isinstance(it, ExtObj) and it.name == 'reversed':
            sub = self.as_iter(it.args[0])
            if isinstance(sub, list): return sub[::-1]
            if isinstance(sub, AbsIter):
                n = self.dim(sub.axis)
                return AbsIter(sub.axis, lambda i: sub.elem(g.sub(g.sub(n, g.const(1)), i)))
        if isinstance(it, ExtObj) and it.name == 'ndenumerate':
            a = it.args[0]
            if isinstance(a, Arr) and len(a.shape) == 1:
                sub = self.as_iter(a)
                if isinstance(sub, AbsIter): return AbsIter(sub.axis, lambda i: Tup([Tup([Num(i)]), sub.elem(i)]))
        if isinstance(it, ExtObj) and it.name == 'ndindex':
            a = it.args[0]
            if isinstance(a, Tup) and len(a.items) == 1 and isinstance(a.items[0], Num):
                ax = self.axis_of(a.items[0].node)
                if not isinstance(ax, int): return AbsIter(ax, lambda i: Tup([Num(i)]))
        if isinstance(it, ExtObj) and it.name == 'product':
            subs = [self.as_iter(x) for x in it.args]
            if all(isinstance(x, list) for x in subs):
                import itertools
                return [Tup(list(t)) for t in itertools.product(*subs)]
            if len(subs) == 2:
                a, b = subs
                return AbsIter2(subs)
        return None
    def dim(self, axis):
        if isinstance(axis, int): return self.g.const(axis)
        return self.g.mk('dim', (), axis)
    def axis_of(self, n):
        c = self.g.cval(n)
        if c is not None and isnum(c): return int(c)
        if n.op == 'dim': return n.attr
        return ('cnt', n.id)
    def loop_index(self, axis):
        depth = sum(1 for a, _ in self.loops if a == axis)
        return self.g.mk('loopidx', (), (axis, depth))
    def abs_loop(self, s, ai):
        if isinstance(ai, AbsIter2):
            self.nested_product(s, ai); return
        body = normalise_loop_body(s.body)
        idx = self.loop_index(ai.axis)
        self.run_abs(s, ai.axis, idx, lambda: self.assign(s.target, ai.elem(idx)), body)
        if s.orelse: self.exec_block(s.orelse)
    def nested_product(self, s, ai):
        a, b = ai.subs
        inner = ast.For(target=s.target, iter=None, body=s.body, orelse=[], lineno=s.lineno, col_offset=0)
        inner._file = getattr(s, '_file', '?')
        def mkit(ea):
            if isinstance(b, list): return [Tup([ea, x]) for x in b]
            return AbsIter(b.axis, lambda i: Tup([ea, b.elem(i)]))
        if isinstance(a, list):
            for ea in a:
                r = mkit(ea)
                if isinstance(r, list): self.unrolled(inner, r)
                else: self.abs_loop(inner, r)
        else:
            idx = self.loop_index(a.axis)
            holder = {}
            class Hook(ast.stmt): _fields = ()
            def pre(): holder['e'] = a.elem(idx)
            hk = Hook(); hk.lineno = s.lineno; hk._file = inner._file
            def run(_):
                r = mkit(holder['e'])
                if isinstance(r, list): self.unrolled(inner, r)
                else: self.abs_loop(inner, r)
            self.st_Hook = run
            self.run_abs(s, a.axis, idx, pre, [hk])
    def st_While(self, s):
        g = self.g
        # a while loop whose condition stays decided is unrolled; otherwise summarised
        for k in range(64):
            st0 = self.st.copy()
            c = self.truth(self.ev(s.test))
            kn = self.known(c)
            if kn is False:
                if s.orelse: self.exec_block(s.orelse)
                return
            if kn is None: break
            if any(isinstance(b, (ast.Break, ast.Continue)) for q in s.body for b in ast.walk(q)): break
            self.exec_block(s.body)
        axis = ('while', getattr(s, '_file', '?'), s.lineno)
        idx = self.loop_index(axis)
        self.run_abs(s, axis, idx, lambda: self.assume_cond(s.test), normalise_loop_body(s.body), cond=s.test)
    def assume_cond(self, test):
        c = self.truth(self.ev(test))
        self.event('whilecond', cond=c)
        self.pc.append(c)
    def snapshot_diff(self, s0, s1):
        """what a loop body changes"""
        ch = []
        fid = self.frames[-1].fid
        for f in s0.frames:
            if f not in s1.frames: continue
            a, b = s0.frames[f], s1.frames[f]
            for k in a:
                if k.startswith('$'): continue
                if k in b and a[k] is not b[k]: ch.append(('var', f, k))
        for k in s0.cells:
            a, b = s0.cells[k], s1.cells.get(k)
            if b is not None and a is not b and any(a.get(q) is not b.get(q) for q in set(a) | set(b)): ch.append(('cell', k))
        for k in s0.objs:
            a, b = s0.objs[k], s1.objs.get(k)
            if b is None or a is b: continue
            if a['kind'] == 'inst' and a['attrs'] is not b['attrs']:
                for q in b['attrs']:
                    if a['attrs'].get(q) is not b['attrs'][q]: ch.append(('attr', k, q))
            if a['kind'] == 'dict' and a['d'] is not b['d']:
                for q in b['d']:
                    if a['d'].get(q) is not b['d'][q]: ch.append(('dkey', k, q))
            if 'items' in a and (a['items'] is not b['items'] or a.get('abs') is not b.get('abs')):
                ch.append(('items', k))
        return ch
    def run_abs(self, s, axis, idx, bindtarget, body, cond=None):
        g = self.g
        pre = self.st
        hasflow = any(isinstance(b, (ast.Break, ast.Continue)) for q in body for b in ast.walk(q))
        def once(state):
            self.st = state
            base = list(self.pc)
            self.loops.append((axis, idx))
            fr = self.frames[-1]
            flow = {'brk': [], 'pc0': len(self.pc)}
            fr.loopflow.append(flow)
            dead = False
            try:
                bindtarget()
                self.exec_block(body)
            except PathDead:
                dead = True
            finally:
                fr.loopflow.pop()
                self.loops.pop()
                self.pc = base
            st = None if dead else self.st
            for k, c, s2 in flow['brk']:
                if k == 'b': self.event('breakloop', cond=self.conj(c), axis=axis)
                st = s2 if st is None else self.merge(self.conj(c), s2, st)
            return st
        # discovery of loop-carried locations
        nret = len(self.frames[-1].returns)
        carried = []
        for attempt in range(4):
            self.muted += 1
            try:
                s0 = pre.copy()
                mus = self.install_mus(s0, carried, axis)
                s0c = s0.copy()
                r = once(s0)
            finally:
                self.muted -= 1
                del self.frames[-1].returns[nret:]
            if r is None: break
            ch = [x for x in self.snapshot_diff(s0c, r)]
            new = [x for x in ch if x not in carried]
            if not new: break
            carried += new
        s0 = pre.copy()
        mus = self.install_mus(s0, carried, axis)
        r = once(s0)
        # early returns inside the loop leave with a value that depends on the loop
        if r is None:
            # body never completes normally
            self.st = pre
            if len(self.frames[-1].returns) > nret: return
            raise PathDead()
        self.st = r
        self.finalise(pre, r, carried, mus, axis, idx)
        # returns recorded inside the loop: their pcs mention loop-local conditions
        fr = self.frames[-1]
        for j in range(nret, len(fr.returns)):
            pcs, v, st = fr.returns[j]
            fr.returns[j] = ([g.mk('exists', (p,), axis) for p in pcs], v, st)
    def install_mus(self, st, carried, axis):
        g = self.g
        mus = {}
        saved = self.st; self.st = st
        for ch in carried:
            if ch[0] == 'var':
                v = st.frames[ch[1]].get(ch[2])
                if isinstance(v, Num):
                    m = g.new_mu(('v', ch[2], axis)); mus[ch] = m
                    st.frames[ch[1]][ch[2]] = Num(m)
                elif isinstance(v, Arr):
                    c = st.cells[v.cell]
                    ms = {k: g.new_mu(('v', ch[2], axis)) for k in c}; mus[ch] = (ms, v.shape)
                    st.frames[ch[1]][ch[2]] = self.arr(dict(ms), v.shape, self.cellorigin[v.cell])
                else:
                    mus[ch] = None   # rebound each iteration; python value
            elif ch[0] == 'cell':
                c = st.cells[ch[1]]
                ms = {k: g.new_mu(('c', ch[1], axis)) for k in c}; mus[ch] = ms
                st.cells[ch[1]] = dict(ms)
            elif ch[0] == 'attr':
                v = st.objs[ch[1]]['attrs'].get(ch[2])
                if isinstance(v, Num):
                    m = g.new_mu(('a', ch[2], axis)); mus[ch] = m
                    o = dict(st.objs[ch[1]]); o['attrs'] = dict(o['attrs']); o['attrs'][ch[2]] = Num(m); st.objs[ch[1]] = o
                elif isinstance(v, Arr):
                    c = st.cells[v.cell]
                    ms = {k: g.new_mu(('a', ch[2], axis)) for k in c}; mus[ch] = (ms, v.shape)
                    o = dict(st.objs[ch[1]]); o['attrs'] = dict(o['attrs']); o['attrs'][ch[2]] = self.arr(dict(ms), v.shape, self.cellorigin[v.cell]); st.objs[ch[1]] = o
                else: mus[ch] = None
            else:
                mus[ch] = None
        self.st = saved
        return mus
    def finalise(self, pre, post, carried, mus, axis, idx):
        g = self.g
        for ch in carried:
            m = mus[ch]
            if ch[0] == 'var':
                v1 = post.frames[ch[1]].get(ch[2])
                v0 = pre.frames[ch[1]].get(ch[2])
                if isinstance(m, Node) and isinstance(v1, Num) and isinstance(v0, Num):
                    post.frames[ch[1]][ch[2]] = Num(self.resolve(m, v0.node, v1.node, axis, idx))
                elif isinstance(m, tuple) and isinstance(v1, Arr) and isinstance(v0, Arr):
                    c0 = pre.cells[v0.cell]; c1 = post.cells[v1.cell]
                    if v1.shape == v0.shape and set(c0) == set(c1):
                        post.frames[ch[1]][ch[2]] = self.arr({k: self.resolve(m[0][k], c0[k], c1[k], axis, idx) for k in c0}, v0.shape, self.cellorigin[v1.cell])
                    else:
                        # e.g. scalar zero-array replaced by a broadcast result
                        if set(c0) == set(c1):
                            post.frames[ch[1]][ch[2]] = self.arr({k: self.resolve(m[0][k], c0[k], c1[k], axis, idx) for k in c0}, v1.shape, self.cellorigin[v1.cell])
                            if not self.np.same_shape(v1.shape, v0.shape): self.issue('loopshape', detail='%s -> %s' % (v0.shape, v1.shape))
                elif isinstance(m, Node) and isinstance(v1, Arr) and isinstance(v0, Num):
                    c1 = post.cells[v1.cell]
                    post.frames[ch[1]][ch[2]] = self.arr({k: self.resolve(m, v0.node, c1[k], axis, idx) for k in c1}, v1.shape)
                elif isinstance(v1, (Num, Arr, Tup)):
                    post.frames[ch[1]][ch[2]] = self.last(v1, axis, idx)
            elif ch[0] == 'cell':
                c0 = pre.cells[ch[1]]; c1 = post.cells[ch[1]]
                if set(c0) == set(c1):
                    post.cells[ch[1]] = {k: self.resolve(m[k], c0[k], c1[k], axis, idx) for k in c0}
            elif ch[0] == 'attr':
                o = post.objs[ch[1]]; v1 = o['attrs'].get(ch[2]); v0 = pre.objs[ch[1]]['attrs'].get(ch[2])
                if isinstance(m, Node) and isinstance(v1, Num):
                    o['attrs'] = dict(o['attrs']); o['attrs'][ch[2]] = Num(self.resolve(m, v0.node, v1.node, axis, idx))
                elif isinstance(m, tuple) and isinstance(v1, Arr) and v1.shape == v0.shape:
                    c0 = pre.cells[v0.cell]; c1 = post.cells[v1.cell]
                    if set(c0) == set(c1):
                        o['attrs'] = dict(o['attrs']); o['attrs'][ch[2]] = self.arr({k: self.resolve(m[0][k], c0[k], c1[k], axis, idx) for k in c0}, v0.shape)
            elif ch[0] == 'items':
                o = post.objs[ch[1]]; p = pre.objs[ch[1]]
                new = o['items'][len(p['items']):]
                if not p['items'] and len(new) >= 1 and not p.get('abs'):
                    if len(new) == 1:
                        val = new[0]
                        o['abs'] = AbsIter(axis, lambda i, val=val: self.reidx(val, idx, i))
                        o['items'] = []
                    else:
                        o['abs'] = AbsIter(('cnt', 'multi', axis), lambda i, val=new[0]: self.reidx(val, idx, i)); o['items'] = []
                else:
                    self.unsup('list changed in loop')
        # temporaries defined inside the loop: last iteration's value
        fid = self.frames[-1].fid
    def reidx(self, v, i0, i1):
        if i0 is i1: return v
        g = self.g
        f = lambda n: i1 if n is i0 else None
        return self.mapnodes(v, lambda n: g.subst(n, f))
    def mapnodes(self, v, f):
        if isinstance(v, Num): return Num(f(v.node))
        if isinstance(v, Arr): return self.arr({k: f(n) for k, n in self.content(v).items()}, v.shape, self.cellorigin[v.cell])
        if isinstance(v, Tup): return Tup([self.mapnodes(x, f) for x in v.items])
        if isinstance(v, Phi): return Phi(f(v.c), self.mapnodes(v.a, f), self.mapnodes(v.b, f))
        if isinstance(v, Lst) and not self.obj(v).get('abs'): return self.lst([self.mapnodes(x, f) for x in self.obj(v)['items']])
        return v
    def last(self, v, axis, idx):
        g = self.g
        def f(n):
            if g.contains(n, idx): return g.mk('last', (n,), (axis,))
            return n
        return self.mapnodes(v, f)
    def unlane(self, n, axis, idx):
        """elementwise array whose element idx is n"""
        g = self.g
        memo = {}
        def go(n, red):
            key = (n.id, red)
            if key in memo: return memo[key]
            if n.op == 'at' and n.args[1] is idx:
                x = go(n.args[0], red)
                r = g.mk('outer', (x,), axis) if red else x
            elif n is idx:
                r = g.mk('iota', (), axis)
            elif n.op == 'mu' or not n.args:
                r = n
            else:
                rr = red or (n.op == 'red' and axis in (n.attr[1] or ()))
                na = [go(a, rr) for a in n.args]
                if all(x is y for x, y in zip(na, n.args)): r = n
                else:
                    old = g.curloc; g.curloc = n.loc
                    r = g.rebuild(n, na); g.curloc = old
            memo[key] = r
            return r
        return go(n, False)
    def resolve(self, m, v0, v1, axis, idx):
        g = self.g
        m_used = m
        if v1 is m: return v0
        if not g.contains(v1, m):
            if v1.op == 'upd':
                pass
            else:
                return g.mk('last', (v1,), (axis,)) if g.contains(v1, idx) else v1
        m.args = (v0, v1)
        # accumulation m + e
        terms = flatten_add(v1)
        if terms.count(m) == 1:
            rest = [t for t in terms if t is not m]
            if not any(g.contains(t, m) for t in rest):
                e = rest[0]
                for t in rest[1:]: e = g.add(e, t)
                return g.add(v0, g.mk('sum', (e,), (axis, idx.id)))
        e = self.increment(v1, m)
        if e is not None: return g.add(v0, g.mk('sum', (e,), (axis, idx.id)))
        # element store
        if v1.op == 'upd' and v1.args[0] is m:
            i, val = v1.args[1], v1.args[2]
            lane = g.at(m, i)
            if i is idx:
                # all uses of m in val must be at the same index
                v2 = g.subst(val, lambda n: g.at(v0, idx) if n is lane else None)
                if not g.contains(v2, m):
                    return self.unlane(v2, axis, idx)
            elif not g.contains(i, idx):
                terms = flatten_add(val)
                if terms.count(lane) == 1:
                    rest = [t for t in terms if t is not lane]
                    if not any(g.contains(t, m) for t in rest):
                        if rest:
                            e = rest[0]
                            for t in rest[1:]: e = g.add(e, t)
                            return g.upd(v0, i, g.add(g.at(v0, i), g.mk('sum', (e,), (axis, idx.id))))
                        return v0
            else:
                v2 = g.subst(val, lambda n: g.at(v0, i) if n is lane else None)
                # bijective reversed index n-1-i
                if not g.contains(v2, m):
                    rev = self.reverse_index(i, axis, idx)
                    if rev is not None:
                        v3 = g.subst(v2, lambda n: g.at(n.args[0], idx) if (n.op == 'at' and n.args[1] is i) else None)
                        if not g.contains(g.subst(v3, lambda n: g.const(0) if (n.op == 'at' and n.args[1] is idx) else None), idx):
                            return self.unlane(v3, axis, idx)
        return m
    def increment(self, n, m):
        """e when n is m + e, also when the cases of a selection add different amounts"""
        g = self.g
        if n is m: return g.const(0)
        if n.op == '+':
            terms = flatten_add(n)
            w = [t for t in terms if g.contains(t, m)]
            if len(w) != 1: return None
            e = self.increment(w[0], m)
            if e is None: return None
            for t in terms:
                if t is not w[0]: e = g.add(e, t)
            return e
        if n.op == 'sel' and not g.contains(n.args[0], m):
            a = self.increment(n.args[1], m); b = self.increment(n.args[2], m)
            return None if a is None or b is None else g.sel(n.args[0], a, b)
        return None
    def reverse_index(self, i, axis, idx):
        g = self.g
        want = g.add(g.sub(self.dim(axis), g.const(1)), g.neg(idx))
        return True if i is want else None

    # ------------------------------------------------------------ truth
    def truth(self, v):
        g = self.g
        if isinstance(v, Num): return g.truth(v.node)
        if isinstance(v, PyC): return g.const(bool(v.v))
        if isinstance(v, Tup): return g.const(bool(v.items))
        if isinstance(v, Arr):
            c = self.content(v)
            if len(c) == 1 and all(isinstance(a, int) for a in v.shape): return g.truth(list(c.values())[0])
            if all(a == 1 or not isinstance(a, int) for a in v.shape) and len(c) == 1:
                self.issue('arraytruth', detail='truth value of an array')
                return g.mk('red', tuple(c.values()), ('any', tuple(v.shape)))
            self.issue('arraytruth', detail='truth value of an array')
            return g.mk('unk', (), 'array truth')
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.get('abs'): return g.const(True)
            if o['kind'] == 'dict': return g.const(bool(o['d']))
            if o['kind'] == 'list': return g.const(bool(o['items']))
            return g.const(True)
        if isinstance(v, Phi):
            return g.sel(v.c, self.truth(v.a), self.truth(v.b)) if v.a is not UNDEF and v.b is not UNDEF else self.truth(v.b if v.a is UNDEF else v.a)
        if isinstance(v, (Func, Bound, Cls, Mod, Ext, Method)): return g.const(True)
        if isinstance(v, ExtObj): return g.mk('unk', (), 'truth of %s' % v.name)
        return g.mk('unk', (), 'truth of %s' % type(v).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return self.unsup('expression ' + type(e).__name__)
        return m(e)
    def ev_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or isnum(v):
            r = self.num(v); r.dt = 'f' if isinstance(v, float) else frozenset(); return r
        if isinstance(v, complex): return self.num(v)
        return PyC(v)
    def ev_Name(self, e):
        self.setloc(e) if hasattr(e, 'lineno') else None
        return self.lookup(e.id)
    def ev_Tuple(self, e): return Tup(self.ev_elts(e.elts))
    def ev_List(self, e): return self.lst(self.ev_elts(e.elts))
    def ev_Set(self, e): return self.lst(self.ev_elts(e.elts))
    def ev_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out += self.seq(self.ev(x.value))
            else: out.append(self.ev(x))
        return out
    def ev_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                sv = self.ev(v)
                if isinstance(sv, Dct): d.update(self.obj(sv)['d'])
                continue
            d[self.hkey(self.ev(k))] = self.ev(v)
        return self.dct(d)
    def ev_JoinedStr(self, e):
        out = ''
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.np.concrete(self.ev(v.value)); sp = ''
                if v.format_spec is not None:
                    y = self.ev(v.format_spec); sp = y.v if isinstance(y, PyC) else None
                if out is not None and x is not None and sp is not None:
                    try: out += format({'r': repr, 's': str, 'a': ascii}.get(chr(v.conversion) if v.conversion > 0 else '', lambda q: q)(x[0]), sp)
                    except Exception: out = None
                else: out = None
            elif out is not None: out += v.value
        return Unk('str') if out is None else PyC(out)
    def ev_Lambda(self, e):
        fr = self.frames[-1]
        f = Func(e, fr.mod, fr.fid, (fr.func.qual + '.' if fr.func else '') + '<lambda>')
        self.eval_defaults(f, e.args)
        return f
    def ev_NamedExpr(self, e):
        v = self.ev(e.value); self.assign(e.target, v); return v
    def ev_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        k = self.known(c)
        if k is True: return self.ev(e.body)
        if k is False: return self.ev(e.orelse)
        box = {}
        def fa(): box['a'] = self.ev(e.body)
        def fb(): box['b'] = self.ev(e.orelse)
        s0 = self.st; base = list(self.pc)
        self.st = s0.copy(); self.pc = base + [c]
        d1 = d2 = False
        try: fa()
        except PathDead: d1 = True
        s1 = self.st
        self.st = s0.copy(); self.pc = base + [self.g.not_(c)]
        try: fb()
        except PathDead: d2 = True
        s2 = self.st
        self.pc = base
        if d1 and d2: raise PathDead()
        if d1: self.st = s2; return box['b']
        if d2: self.st = s1; return box['a']
        self.st = self.merge(c, s1, s2)
        return self.join(c, box['a'], box['b'], s1, s2)
    def ev_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            c = self.truth(v)
            k = self.known(c)
            if k is not None:
                if isand and k is False: return self.num(False) if not isinstance(v, PyC) else v
                if not isand and k is True: return v
                v = self.ev(x); continue
            cond = c if isand else self.g.not_(c)
            s0 = self.st; base = list(self.pc)
            self.st = s0.copy(); self.pc = base + [cond]
            try:
                w = self.ev(x)
                s1 = self.st; self.pc = base
            except PathDead:
                self.st = s0; self.pc = base; continue
            self.st = self.merge(cond, s1, s0.copy())
            def iscond(u): return isinstance(u, Num) or isinstance(u, Arr)
            if iscond(v) and iscond(w):
                a, b = self.truth(v), self.truth(w)
                v = Num(self.g.and_(a, b) if isand else self.g.or_(a, b))
            else:
                v = self.join(cond, w, v, s1, s0)
        return v
    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        self.setloc(e)
        op = type(e.op).__name__
        g = self.g
        if op == 'Not': return Num(g.not_(self.truth(v)))
        if op == 'USub':
            r = self.np.unary(lambda n: g.neg(n), v)
            if isinstance(v, (Num, Arr)) and isinstance(r, (Num, Arr)): r.dt = v.dt
            return r
        if op == 'UAdd': return v
        if op == 'Invert': return self.np.unary(lambda n: g.not_(n), v)
    def ev_BinOp(self, e):
        a = self.ev(e.left); b = self.ev(e.right)
        self.setloc(e)
        return self.binop(type(e.op).__name__, a, b)
    def binop(self, op, a, b):
        return self.lift(lambda x, y: self.np.binop(op, x, y), a, b)
    def ev_Compare(self, e):
        l = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r)
            self.setloc(e)
            x = self.lift(lambda p, q: self.np.compare(type(op).__name__, p, q), l, rv)
            res = x if res is None else self.binop('BitAnd', res, x)
            l = rv
        return res
    def ev_Attribute(self, e):
        b = self.ev(e.value)
        self.setloc(e)
        return self.getattr(b, e.attr)
    def ev_Subscript(self, e):
        b = self.ev(e.value); i = self.ev_index(e.slice)
        self.setloc(e)
        return self.getitem(b, i)
    def ev_index(self, s):
        if isinstance(s, ast.Tuple):
            return Tup([self.ev_index(x) for x in s.elts])
        if isinstance(s, ast.Slice):
            return Slice(self.ev(s.lower) if s.lower else None, self.ev(s.upper) if s.upper else None, self.ev(s.step) if s.step else None)
        if s.__class__.__name__ == 'Index': return self.ev_index(s.value)
        return self.ev(s)
    def ev_Slice(self, s): return self.ev_index(s)
    def ev_Starred(self, e): return self.ev(e.value)
    def ev_ListComp(self, e): return self.comp(e, e.elt)
    def ev_GeneratorExp(self, e): return self.comp(e, e.elt)
    def ev_SetComp(self, e): return self.comp(e, e.elt)
    def ev_DictComp(self, e):
        r = self.comp(e, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))
        try:
            d = {}
            for t in self.seq(r): d[self.hkey(t.items[0])] = t.items[1]
            return self.dct(d)
        except Unsupported:
            return self.unsup('dict comprehension')
    def comp(self, e, elt):
        fid = self.new_frame_id()
        fr = self.frames[-1]
        self.st.frames[fid] = {'$parent': fr.fid}
        f2 = Frame(fid, fr.func, fr.mod)
        f2.globals = set()
        self.frames.append(f2)
        try:
            out = []
            res = self.comp_rec(e.generators, 0, elt, out)
            if res is not None: return res
            return self.lst(out)
        finally:
            self.frames.pop()
    def comp_rec(self, gens, k, elt, out):
        if k == len(gens):
            out.append(self.ev(elt)); return None
        gen = gens[k]
        itv = self.ev(gen.iter)
        it = self.as_iter(itv)
        if isinstance(it, list):
            for x in it:
                self.assign(gen.target, x)
                conds = [self.truth(self.ev(c)) for c in gen.ifs]
                c = self.conj(conds)
                kn = self.known(c)
                if kn is False: continue
                if kn is None:
                    sub = []
                    self.pc.append(c)
                    try: self.comp_rec(gens, k+1, elt, sub)
                    finally: self.pc.pop()
                    out += [Phi(c, v, UNDEF) for v in sub]
                    continue
                r = self.comp_rec(gens, k+1, elt, out)
                if r is not None: self.unsup('nested abstract comprehension')
            return None
        if isinstance(it, AbsIter):
            idx = self.loop_index(it.axis)
            self.loops.append((it.axis, idx))
            try:
                self.assign(gen.target, it.elem(idx))
                conds = [self.truth(self.ev(c)) for c in gen.ifs]
                c = self.conj(conds)
                sub = []
                base = list(self.pc)
                if self.known(c) is None: self.pc = base + [c]
                r = self.comp_rec(gens, k+1, elt, sub)
                self.pc = base
            finally:
                self.loops.pop()
            if r is not None:
                sub = [r]
            if len(sub) != 1: return self.unsup('abstract comprehension')
            val = sub[0]
            if c.op != 'bool':
                val = Phi(c, val, UNDEF)
                o = self.lst([]); self.obj(o)['abs'] = AbsIter(('filt', it.axis, c.id), lambda i, val=val: self.reidx(val.a, idx, i))
                self.obj(o)['absfilter'] = c
                return o
            o = self.lst([])
            self.obj(o)['abs'] = AbsIter(it.axis, lambda i, val=val: self.reidx(val, idx, i))
            return o
        self.unsup('comprehension over %s' % type(itv).__name__)
        return self.lst([Unk('comp')])
    def ev_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' :
            fr = self.frames[-1]
            if e.args:
                cls = self.ev(e.args[0]); inst = self.ev(e.args[1])
            else:
                cls = fr.func.cls; inst = self.st.frames[fr.fid].get(fr.func.node.args.args[0].arg)
            return Super(cls, inst)
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                try: args += self.seq(v)
                except Unsupported: args.append(v)
            else: args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, Dct):
                    if set(kw) & set(self.obj(d)['d']): raise PathDead()     # TypeError: multiple values for keyword argument
                    kw.update(self.obj(d)['d'])
                else: self.unsup('**kwargs of %s' % type(d).__name__)
            elif k.arg in kw: raise PathDead()
            else: kw[k.arg] = self.ev(k.value)
        self.setloc(e)
        return self.call(f, args, kw)
    def ev_Await(self, e): return self.unsup('await')
    def ev_Yield(self, e): return self.unsup('yield')

    # ------------------------------------------------------------ attributes
    def attr_event(self, rw, inst, name):
        self.event('attr' + rw, oid=inst.oid, cls=inst.cls.name, name=name)
    def getattr(self, b, name):
        return self.lift(lambda x: self._getattr(x, name), b)
    def _getattr(self, b, name):
        if isinstance(b, Mod):
            v = self.modattr(b.name, name)
            if v is None: return Unk('module attr ' + name)
            return v
        if isinstance(b, Ext):
            return self.np.ext_attr(b, name)
        if isinstance(b, Super):
            mro = b.inst.cls.mro()
            i = mro.index(b.cls) if b.cls in mro else -1
            for c in mro[i+1:]:
                if name in c.attrs: return self.bind_attr(c.attrs[name], b.inst)
            return Method(Tup([b.inst]), 'super.' + name)
        if isinstance(b, Inst):
            if name == '__dict__': return Unk('__dict__')
            if name == '__class__': return b.cls
            for c in b.cls.mro():
                if name in c.attrs and isinstance(c.attrs[name], Prop):
                    return self.call(c.attrs[name].fget, [b], {})
            at = self.obj(b)['attrs']
            if name in at and at[name] is not UNDEF:
                self.attr_event('r', b, name)
                return at[name]
            for c in b.cls.mro():
                if name in c.attrs:
                    v = c.attrs[name]
                    if not isinstance(v, Func): self.attr_event('r', b, name)
                    return self.bind_attr(v, b)
            if 'list' in b.cls.ext_bases() or b.cls.ext_bases() == ['builtins.list'] or 'builtins.list' in b.cls.ext_bases():
                from .npmodel import LISTMETHODS
                if name in LISTMETHODS: return Method(b, name)
            self.attr_event('r', b, name)
            self.event('noattr', cls=b.cls.name, name=name)
            return Unk('no attribute %s.%s' % (b.cls.name, name))
        if isinstance(b, Cls):
            if name == '__name__': return PyC(b.name)
            for c in b.mro():
                if name in c.attrs: return c.attrs[name]
            return Unk('class attr ' + name)
        if isinstance(b, Func):
            if name in ('__name__', '__doc__'): return PyC(b.qual)
            return Unk('func attr')
        return self.np.val_attr(b, name)
    def bind_attr(self, v, inst):
        if isinstance(v, Func):
            if getattr(v, 'static', False): return v
            return Bound(v, inst.cls if getattr(v, 'classm', False) else inst)
        if isinstance(v, Prop): return self.call(v.fget, [inst], {})
        return v
    def setattr(self, b, name, v):
        if isinstance(b, Phi):
            self.branch(b.c, lambda: self.setattr(b.a, name, v), lambda: self.setattr(b.b, name, v)); return
        if isinstance(b, Inst):
            for c in b.cls.mro():
                p = c.attrs.get(name)
                if isinstance(p, Prop):
                    if p.fset is None:
                        self.event('raise', exc='AttributeError'); raise PathDead()
                    self.call(p.fset, [b, v], {}); return
            self.attr_event('w', b, name)
            o = self.obj(b)
            a = dict(o['attrs']); a[name] = v; o['attrs'] = a
            return
        if isinstance(b, Mod):
            self.event('globalwrite', name=b.name + '.' + name); return
        if isinstance(b, (Cls,)):
            self.event('globalwrite', name=b.name + '.' + name)
            b.attrs[name] = v; return
        if isinstance(b, Func):
            self.event('globalwrite', name=b.qual + '.' + name); return
        if isinstance(b, Ext):
            self.event('globalwrite', name=b.name + '.' + name); return
        if isinstance(b, Arr) and name == 'shape':
            self.write_event(b, 'shape assignment'); return
        if isinstance(b, Unk): return
        self.unsup('setattr on %s' % type(b).__name__)

    # ------------------------------------------------------------ items
    def getitem(self, b, i):
        return self.lift(lambda x: self._getitem(x, i), b) if not isinstance(i, Phi) else self.lift(lambda x, j: self._getitem(x, j), b, i)
    def _getitem(self, b, i):
        if isinstance(b, (Arr, Num)): return self.np.getitem(b, i)
        if isinstance(b, Dct):
            d = self.obj(b)['d']
            k = self.hkey(i)
            if k in d: 
                v = d[k]
                return v
            if isinstance(i, (PyC,)) or (isinstance(i, Num) and self.g.cval(i.node) is not None):
                self.event('raise', exc='KeyError'); raise PathDead()
            # unknown key: join of all
            if d:
                vs = list(d.items())
                r = vs[-1][1]
                for kk, v in reversed(vs[:-1]):
                    c = self.g.mk('keyeq', (i.node,) if isinstance(i, Num) else (), repr(kk))
                    r = Phi(c, v, r)
                return r
            return Unk('dict item')
        if isinstance(b, (Tup, Lst, Inst)) or (isinstance(b, PyC) and isinstance(b.v, str)):
            if isinstance(b, Ref) and self.obj(b).get('abs'):
                ai = self.obj(b)['abs']
                if isinstance(i, Num):
                    c = self.g.cval(i.node)
                    return ai.elem(i.node)
                return Unk('abstract list slice')
            items = self.seq(b)
            if isinstance(i, Slice):
                lo, hi, st = [None if x is None or (isinstance(x, PyC) and x.v is None) else self.g.cval(x.node) if isinstance(x, Num) else 'u' for x in (i.lo, i.hi, i.st)]
                if 'u' in (lo, hi, st) or any(isinstance(x, Num) and self.g.cval(x.node) is None for x in (i.lo, i.hi, i.st)):
                    self.event('symslice', n=len(items))
                    return Unk('symbolic slice')
                r = items[slice(lo, hi, st)]
                return Tup(r) if isinstance(b, Tup) else (self.lst(r) if not isinstance(b, PyC) else PyC(b.v[slice(lo, hi, st)]))
            if isinstance(i, Num):
                c = self.g.cval(i.node)
                if c is not None:
                    try: return items[int(c)]
                    except IndexError:
                        self.event('raise', exc='IndexError'); raise PathDead()
                if items:
                    r = items[-1]
                    for k in range(len(items)-2, -1, -1):
                        r = self.join(self.g.cmp('==', i.node, self.c(k)), items[k], r, self.st, self.st)
                    return r
            return Unk('index')
        if isinstance(b, ExtObj): return ExtObj(b.name + '[]', (b,))
        if isinstance(b, Unk): return b
        return self.unsup('getitem on %s' % type(b).__name__)
    def setitem(self, b, i, v):
        if isinstance(b, Phi):
            self.branch(b.c, lambda: self.setitem(b.a, i, v), lambda: self.setitem(b.b, i, v)); return
        if isinstance(v, Phi):
            k = self.known(v.c)
            if k is True or v.b is UNDEF: v = v.a
            elif k is False or v.a is UNDEF: v = v.b
            if isinstance(v, Phi) and isinstance(b, Arr):
                vv = v
                self.branch(vv.c, lambda: self.setitem(b, i, vv.a), lambda: self.setitem(b, i, vv.b)); return
        if isinstance(b, Arr): return self.np.setitem(b, i, v)
        if isinstance(b, Dct):
            self.obj_write_event(b, 'dict store')
            d = dict(self.obj(b)['d']); d[self.hkey(i)] = v; self.obj(b)['d'] = d; return
        if isinstance(b, (Lst, Inst)):
            self.obj_write_event(b, 'list store')
            o = self.obj(b)
            if isinstance(i, Num) and self.g.cval(i.node) is not None and not o.get('abs'):
                it = list(o['items']); it[int(self.g.cval(i.node))] = v; o['items'] = it; return
            if isinstance(i, Slice) and i.lo is None and i.hi is None:
                o['items'] = self.seq(v); o['abs'] = None; return
            self.unsup('list store'); return
        if isinstance(b, (Unk, ExtObj)): return
        self.unsup('setitem on %s' % type(b).__name__)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Phi):
            return self.lift(lambda ff: self.call(ff, args, kw), f)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.np.call_ext(f.name, args, kw)
        if isinstance(f, Method):
            return self.np.call_method(f.obj, f.name, args, kw)
        if isinstance(f, Super):
            return f
        if isinstance(f, Inst):
            for c in f.cls.mro():
                if '__call__' in c.attrs: return self.call(c.attrs['__call__'], [f] + list(args), kw)
        if isinstance(f, ExtObj):
            self.event('extcall', name=f.name, args=args)
            if f.name == 'partial': 
                k2 = dict(f.kw); k2.update(kw)
                return self.call(f.args[0], list(f.args[1:]) + list(args), k2)
            if f.name == 'vectorized': return self.np.apply_elementwise(f.args[0], args, kw)
            return self.np.opaque_result(f.name, args, kw)
        if isinstance(f, Unk):
            if 'undefined' in f.why: return Unk('call of undefined')
            self.unsup('call of %s' % f.why)
            return Unk('call')
        return self.unsup('call of %s' % type(f).__name__)
    def instantiate(self, cls, args, kw):
        if any('Exception' in b or 'Error' in b for b in cls.ext_bases()):
            return ExtObj('exception')
        i = self.inst(cls)
        init = None
        for c in cls.mro():
            if '__init__' in c.attrs: init = c.attrs['__init__']; break
        self.event('newinst', oid=i.oid, cls=cls.name)
        if init is not None: self.call(init, [i] + list(args), kw)
        elif 'builtins.list' in cls.ext_bases() and args: self.np.call_method(Tup([i]), 'super.__init__', args, kw)
        return i
    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        args = list(args)
        for n, v in zip(names, args): env[n] = v
        extra = args[len(names):]
        if a.vararg: env[a.vararg.arg] = Tup(extra)
        elif extra:
            self.issue('arity', detail='%s called with %d positional arguments' % (f.qual, len(args)))
            raise PathDead()
        kwrest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env:
                    self.issue('arity', detail='%s got multiple values for %s' % (f.qual, k)); raise PathDead()
                env[k] = v
            elif a.kwarg: kwrest[k] = v
            else:
                self.issue('arity', detail='%s got unexpected keyword %s' % (f.qual, k)); raise PathDead()
        if a.kwarg: env[a.kwarg.arg] = self.dct(kwrest)
        nd = len(f.defaults)
        for n, d in zip(names[len(names)-nd:] if nd else [], f.defaults):
            if n not in env: env[n] = d
        for n in kwonly:
            if n not in env:
                if n in f.kwdefaults: env[n] = f.kwdefaults[n]
        for n in names + kwonly:
            if n not in env:
                self.issue('arity', detail='%s missing argument %s' % (f.qual, n)); raise PathDead()
        return env
    def call_func(self, f, args, kw):
        full = f.mod + '.' + f.qual
        env = self.bind_args(f, args, kw)
        if full in self.opaque:
            return self.opaque[full](self, f, env)
        self.calllog.add(full)
        if self.depth > self.MAXDEPTH:
            self.unsup('recursion too deep'); return Unk('recursion')
        fid = self.new_frame_id()
        env = dict(env); env['$parent'] = f.fid
        self.st.frames[fid] = env
        fr = Frame(fid, f, f.mod)
        fr.pc0 = len(self.pc)
        base = list(self.pc)
        savedloc = self.g.curloc
        self.frames.append(fr)
        self.depth += 1
        fell = False
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                return v
            try:
                for n in local_names(f.node):
                    env.setdefault(n, UNDEF)
                self.exec_block(f.node.body)
                fell = True
            except PathDead:
                pass
            rets = fr.returns
            if fell:
                rets = rets + [([], NONE, self.st)]
            if not rets:
                raise PathDead()
            # the last return is the default; earlier ones are selected by their path conditions
            pcs, val, st = rets[-1]
            extra = pcs
            for pcs2, v2, st2 in reversed(rets[:-1]):
                c = self.conj(pcs2)
                if c.op == 'bool' and c.attr:
                    val, st = v2, st2; continue
                m = self.merge(c, st2, st)
                val = self.join(c, v2, val, st2, st)
                st = m
            self.st = st
            # facts that hold on every returning path (e.g. the complement of a raise) stay known
            common = None
            for pcs2, _, _ in rets:
                ids = {p.id: p for p in pcs2}
                common = ids if common is None else {k: v for k, v in common.items() if k in ids}
            if fell and len(rets) == 1: common = {p.id: p for p in self.pc[fr.pc0:]}
            self.pc = base + list((common or {}).values())
            return val
        finally:
            if self.pc[:len(base)] != base: self.pc = base
            self.frames.pop()
            self.depth -= 1
            self.g.curloc = savedloc
            if not isinstance(f.node, ast.Lambda) and fid in self.st.frames:
                pass

class AbsIter2(AbsIter):
    def __init__(self, subs): self.subs = subs; self.axis = None; self.elem = None

class ImportFail(Exception): pass

KNOWN_EXT = {'numpy', 'scipy', 'matplotlib', 'unittest', 'itertools', 'math', 'os', 'sys', 'warnings', 'functools', 'copy', 'collections',
             'mpl_toolkits', 'time', 'pandas', 'floris', 'operator', 'typing', 'abc', 'logging', 'contextlib', 'pickle', 'json', 'random', 'glob', 'weio', 'pybra_'}

def local_names(fn):
    r = getattr(fn, '_locals', None)
    if r is not None: return r
    out = set()
    skip = set()
    def walk(n, top):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                out.add(ch.name); continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(ch, (ast.Global, ast.Nonlocal)): skip.update(ch.names)
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store): out.add(ch.id)
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names: out.add((a.asname or a.name).split('.')[0])
            if isinstance(ch, ast.ExceptHandler) and ch.name: out.add(ch.name)
            walk(ch, False)
    walk(fn, True)
    fn._locals = out - skip
    return fn._locals

def flatten_add(n):
    out = []; st = [n]
    while st:
        x = st.pop()
        if x.op == '+': st.extend(x.args)
        else: out.append(x)
    return out

def normalise_loop_body(body):
    """`if c: continue` followed by rest  ->  `if not c: rest` (nothing else is rewritten)"""
    out = []
    for k, s in enumerate(body):
        if isinstance(s, ast.If) and len(s.body) >= 1 and isinstance(s.body[-1], ast.Continue) and not s.orelse and \
           not any(isinstance(x, (ast.Continue, ast.Break)) for q in s.body[:-1] for x in ast.walk(q)):
            rest = normalise_loop_body(body[k+1:])
            t = ast.If(test=s.test, body=list(s.body[:-1]) or [_pass(s)], orelse=rest or [], lineno=s.lineno, col_offset=0)
            t._file = getattr(s, '_file', '?')
            out.append(t)
            return out
        out.append(s)
    return out
def _pass(s):
    p = ast.Pass(lineno=s.lineno, col_offset=0); p._file = getattr(s, '_file', '?'); return p
