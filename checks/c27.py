"""Element-type analysis: the abstract execution of every computation under every option carries, with each
array, the arguments that make it an array of integers.  Storing into such an array a value that is not an
integer under the same condition (its decimals are cut off), updating it in place with such a value or raising
it to a negative integer power (both refused by numpy) is reported, and so is a result in which an argument
has been rounded."""
from sa import allruns
from checks.c13 import leaves

ROUND = {'int', 'floor', 'ceil', 'trunc', 'round', 'rint', 'fix', 'floordiv'}
WHAT = {'trunc': 'decimals are cut off: a value (%s) is stored in an array holding integers if %s does',
        'castfail': 'an array holding integers if %s does is updated in place with a value that is no integer (%s)'}

def fn(loc): return loc[2] if loc and len(loc) > 2 else '?'

def run(rep, repo, tier):
    for r in allruns.everything(repo, tier): one(rep, r)
    return 250

def one(rep, r):
    it = r.it; g = it.g
    rep.count('configurations')
    cfg = '%s %s' % (r.key, r.label)
    bad = False
    for e in it.events:
        if e.kind in ('trunc', 'castfail', 'intneg'):
            bad = True
            ints = ', '.join(e.ints) if e.kind != 'intneg' and e.ints else 'always' if e.kind != 'intneg' else ''
            if e.kind == 'trunc': d = 'a value (%s) stored in an array that holds integers %s' % (e.value, 'if %s does' % ints if e.ints else 'always')
            elif e.kind == 'castfail': d = 'an array that holds integers %s is updated in place with a value that is not (%s)' % ('if %s does' % ints if e.ints else 'always', e.value)
            else: d = 'an array that may hold integers is raised to the power %s' % e.detail
            rep.fail('numbers keep their decimals', fn(e.loc), d, e.loc, configs=cfg)
        if e.kind == 'narrow':
            bad = True; rep.fail('numbers keep their decimals', fn(e.loc), 'values are converted to %s, which cannot hold every number' % e.detail, e.loc, configs=cfg)
    if not bad: rep.ok('numbers keep their decimals', cfg)
    if r.value is None or r.dead: return
    try: L = leaves(it, r.value)
    except Exception: return
    seen = g.reach([n for _, n in L])
    for n in seen.values():
        if n.op == 'fn' and n.attr in ROUND and any(a.op == 'input' and a.attr and a.attr[0] == 'num' for a in g.reach(n.args).values()):
            rep.fail('numbers are not rounded', fn(n.loc) if getattr(n, 'loc', None) else r.where, 'the result depends on a rounded argument (%s)' % n.attr, getattr(n, 'loc', None), configs=cfg)
            return
    rep.ok('numbers are not rounded', cfg)
