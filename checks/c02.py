"""Linearity analysis (abstract interpretation): every value of a kernel's value graph is classified as
zero, independent of the vortex strength, or homogeneous of degree one in a set of strengths; selections
on a strength are accepted only as guards of its zero value.  Every output must be homogeneous of degree
one.  The wake of several cylinders, rings or points is linear in all strengths together."""
from sa import entries, kern, linear, simp
from sa.ir import show

def strengths(e):
    return set(x[0] for x in e.args if str(x[3]).startswith('str:'))

def run(rep, repo, tier):
    for e in entries.kernels() + entries.curled():
        st = strengths(e)
        for cfg in e.configs:
            r = kern.run_entry(repo, e, cfg)
            rep.count('configurations')
            if r.dead: rep.undecided('linear in the strength', e.key, 'no path returns'); continue
            it = r.it; g = it.g
            cf = simp.Cofactor(g)
            L = [(p + s, cf.go(n, {})) for p, v in kern.outputs(it, r.value) for s, n in kern.nodes_of(it, v)]
            dom = linear.Linear(g, st)
            val = linear.evaluate(dom, [n for _, n in L])
            rep.count('graph nodes', len(val))
            for p, n in L:
                v = val[n.id]
                if v[0] in ('Z', 'L'): rep.ok('linear in the strength', '%s %s%s: %s' % (e.key, cfg[0], p, '0' if v[0] == 'Z' else '+'.join(sorted(map(str, v[1]))[:4])))
                elif v[0] == 'T' and v[2]:
                    rep.undecided('linear in the strength', e.key + p, '%s at %s' % (v[1], v[3]))
                else:
                    why = v[1] if v[0] == 'T' else 'part of the velocity does not depend on the strength' if v[0] == 'C' else 'velocity has a part independent of the strength'
                    loc = v[3] if v[0] == 'T' else n.loc
                    rep.fail('linear in the strength', e.key, why, loc, ['output %s: %s' % (p, show(g, n, 3))], cfg[0])
    return 250
