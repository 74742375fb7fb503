"""Effect and alias analysis: every store (item, slice or mask assignment, in-place operator, out=
argument, in-place method, container mutation) is attributed to the memory it can reach through views.
No store may reach an array, list or dictionary handed in by the caller or a shared default argument, and
no array returned may share memory with one handed in, with another returned array or with the state of
the turbine; settings handed in as arrays (all vector shapes, through every setter and the farm's layout)
are stored as copies."""
from sa import allruns, kern
from sa.interp import Arr, Phi, Tup, Lst, Dct, Inst, Ref

def arrays(it, v, out=None):
    out = [] if out is None else out
    if isinstance(v, Arr): out.append(v)
    elif isinstance(v, Phi): arrays(it, v.a, out); arrays(it, v.b, out)
    elif isinstance(v, Tup):
        for x in v.items: arrays(it, x, out)
    elif isinstance(v, Lst):
        for x in it.obj(v)['items']: arrays(it, x, out)
    elif isinstance(v, Dct):
        for x in it.obj(v)['d'].values(): arrays(it, x, out)
    return out

def run(rep, repo, tier):
    for r in allruns.everything(repo, tier): one(rep, r)
    for r in allruns.stored(repo): kept(rep, r)
    for r in allruns.shapes(repo, what=allruns.SINGLE): one(rep, r)
    for r in allruns.turbine_shapes(repo, allruns.SINGLE): one(rep, r)
    return 300

def kept(rep, r):
    it = r.it; rule = 'stored settings are copies'
    one(rep, r)
    for after, st in r.states.items():
        bad = {}
        for a, v in st.items():
            for x in arrays(it, v):
                for o in set(it.cellorigin.get(x.cell, ())) | set(it.cellorigin.get(base(it, x.cell), ())):
                    if o.startswith('param:'): bad.setdefault(o[6:], []).append(a)
        for o in sorted(bad):
            rep.fail(rule, 'WindTurbine', 'after %s the turbine keeps the caller\'s array %s itself (%s)' % (after, o, ', '.join(sorted(bad[o]))), None, configs=r.label)
        if not bad: rep.ok(rule, '%s %s: %d attributes' % (after, r.label, len(st)))

def base(it, cell):
    seen = set()
    while cell in it.cellview and cell not in seen:
        seen.add(cell); cell = it.cellview[cell][0].cell
    return cell

def one(rep, r):
    it = r.it
    rep.count('configurations')
    rule = 'caller data is never written'
    seen = False
    for e in it.events:
        if e.kind != 'write': continue
        for o in sorted(e.origins):
            what = o.split(':', 1)
            seen = True
            if what[0] == 'param':
                rep.fail(rule, fn(e.loc), '%s stores into the caller\'s %s' % (e.how, what[1]), e.loc, configs='%s %s' % (r.key, r.label), firm=True)
            elif what[0] == 'default':
                rep.fail('shared defaults are never written', fn(e.loc), '%s stores into a default argument of %s' % (e.how, what[1]), e.loc, configs='%s %s' % (r.key, r.label), firm=True)
    if not seen: rep.ok(rule, '%s %s' % (r.key, r.label))
    if r.dead or r.value is None: return
    rule = 'results own their memory'
    outs = arrays(it, r.value)
    bad = False
    bases = [base(it, a.cell) for a in outs]
    for a, b in zip(outs, bases):
        os = set(it.cellorigin.get(a.cell, ())) | set(it.cellorigin.get(b, ()))
        for o in sorted(os):
            if o.startswith('param:'):
                bad = True
                rep.fail(rule, r.key, 'a returned array is the caller\'s %s' % o[6:], None, configs=r.label)
    if len(set(bases)) < len(bases):
        bad = True
        rep.fail(rule, r.key, 'two returned arrays share memory', None, configs=r.label)
    if hasattr(r, 'wt'):
        st = set()
        for w in getattr(r, 'wts', [r.wt]):
            for v in it.obj(w)['attrs'].values():
                for a in arrays(it, v): st.add(base(it, a.cell))
        if any(b in st for b in bases):
            bad = True; rep.fail(rule, r.key, 'a returned array is part of the turbine state', None, configs=r.label)
    if not bad and outs: rep.ok(rule, '%s %s: %d arrays' % (r.key, r.label, len(outs)))

def fn(loc):
    return loc[2] if loc and len(loc) > 2 else '?'
