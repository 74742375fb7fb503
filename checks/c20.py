"""Abstract interpretation of the save and load routines over a store of named files: what is saved under a
name (for several names, one after the other) is compared as values with what is loaded under it."""
from sa import kern, sym
from sa.interp import Num, Arr, NONE, PathDead, PyC, Tup
from checks.c13 import leaves

CE = 'coupling_examples.helper_functions'
AB = 'wiz.article_blockage.helper_functions'
NAMES = ('a', 'b', 'dir/a', 'dir/b_', 'ax', '', 'case.1', 'case.2', 'case_1', 'case1', 'A', 'U8.5_a', 'U8.5_b', 'my case', 'mycase', 'dir/case.1', 'a' * 40 + '1', 'a' * 40 + '2')

def run(rep, repo, tier):
    planes(rep, repo)
    objects(rep, repo)
    return 20

def get(s, mod, name):
    f = s.it.func(mod, name)
    if f is None: raise kern.Anchor('%s.%s not found' % (mod, name))
    return f

def plane(s, tag):
    ax = {'x': ('nx',), 'y': ('ny',), 'u': ('ny', 'nx'), 'v': ('ny', 'nx')}
    return [s.it.arr(s.inp(n + tag), ax[n]) for n in 'xyuv']

def planes(rep, repo):
    rule = 'a plane read back is the plane saved'
    for form in ('four arrays', 'one tuple'):
        for norm in (False, True):
            s = sym.Sess(repo); it = s.it; g = s.g; it.files = {}; seen = set()
            save, load = get(s, CE, 'savePlane'), get(s, CE, 'loadPlane')
            lab = '%s%s' % (form, ', normalised' if norm else '')
            kw = {'U0': Num(s.inp('U0'))} if norm else {}
            for b in NAMES[:2] + NAMES:       # the first two twice: the last one saved counts
                P = plane(s, ('@' if b in seen else 'old@') + b) if b in NAMES[:2] else plane(s, '@' + b)
                seen.add(b)
                try:
                    if form == 'four arrays': it.call(save, P, dict(kw, base=PyC(b)))
                    else: it.call(save, [Tup(P), PyC(b)], kw)
                except PathDead: rep.fail(rule, 'savePlane', 'saving ends in an error', None, configs=lab)
            narrow(rep, it, 'savePlane', lab)
            for b in NAMES:
                rep.count('planes')
                it.events.clear()
                try: v = it.call(load, [PyC(b)], {})
                except PathDead: rep.fail(rule, 'loadPlane', 'loading ends in an error', None, configs=lab); continue
                narrow(rep, it, 'loadPlane', lab)
                miss = [e for e in it.events if e.kind == 'nofile']
                if miss: rep.fail(rule, 'loadPlane', 'a file is read that was never written', miss[0].loc, configs='%s, base=%r' % (lab, b)); continue
                L = leaves(it, v)
                if len(L) != 4: rep.undecided(rule, 'loadPlane ' + lab, 'result not understood'); continue
                D = []
                for (p, nd), n in zip(L, 'xyuv'):
                    ref = s.inp(n + '@' + b)
                    if norm and n in 'uv': ref = g.div(ref, s.inp('U0'))
                    D.append(('component %s read back%s' % (n, ' normalised' if norm and n in 'uv' else ''), g.sub(nd, ref)))
                sym.report(rep, rule, 'savePlane/loadPlane', s.zero(D, regular=True), {}, '%s, base=%r' % (lab, b))

def narrow(rep, it, where, lab):
    rule = 'numbers keep all their digits'
    es = [e for e in it.events if e.kind == 'narrow']
    for e in es: rep.fail(rule, where, 'values are converted to %s' % e.detail, e.loc, configs=lab)
    if not es: rep.ok(rule, '%s %s' % (where, lab))

def objects(rep, repo):
    rule = 'an object read back is the object saved'
    s = sym.Sess(repo); it = s.it; g = s.g; it.files = {}
    save, load = get(s, AB, 'save_obj'), get(s, AB, 'load_obj')
    for b in NAMES: 
        it.call(save, [Num(s.inp('old@' + b)), PyC(b)], {})
        try: it.call(save, [Num(s.inp('obj@' + b)), PyC(b)], {})
        except PathDead: rep.fail(rule, 'save_obj', 'saving ends in an error', None)
    for b in NAMES:
        rep.count('objects'); it.events.clear()
        try: v = it.call(load, [PyC(b)], {})
        except PathDead: rep.fail(rule, 'load_obj', 'loading ends in an error', None); continue
        miss = [e for e in it.events if e.kind == 'nofile']
        if miss: rep.fail(rule, 'load_obj', 'a file is read that was never written', miss[0].loc, configs='name=%r' % b); continue
        if not isinstance(v, Num): rep.undecided(rule, 'load_obj', 'result not understood'); continue
        sym.report(rep, rule, 'save_obj/load_obj', s.zero([('object read back', g.sub(v.node, s.inp('obj@' + b)))]), {}, 'name=%r' % b)
