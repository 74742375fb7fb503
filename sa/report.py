"""Collecting obligations and violations, known findings, evidence."""
import json, os, sys, time
from . import taint

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Broken(Exception):
    """the analysis itself cannot run (an anchor vanished, nothing left to analyse)"""

class Report(object):
    def __init__(self, prop, tier, technique='', explanation=''):
        self.prop = prop; self.tier = tier
        self.t0 = time.time()
        self.discharged = 0
        self.violations = {}      # key -> dict
        self.undec = {}           # key -> text
        self.counts = {}
        self.samples = {}
        self.assumptions = []
        self.explanation = explanation
        self.technique = technique
        self.rules = {}
        self.trusted = []
    # -- obligations
    def ok(self, rule, what=None, n=1):
        self.discharged += n
        d = self.rules.setdefault(rule, [0, 0, 0]); d[0] += n
        if what is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 400: s.append(what)
    def fail(self, rule, where, detail, loc=None, trace=None, configs=None, firm=False):
        """where: entry/function; detail: normalised text.  One violation per (where, rule, detail).
        firm: read off the source itself, whatever the value model covers.  A difference found before the
        analysis has met any construct outside of the value model is as good."""
        key = '%s|%s|%s' % (where, rule, detail)
        d = self.violations.get(key)
        if d is None:
            d = self.violations[key] = {'property': self.prop, 'where': where, 'rule': rule, 'detail': detail, 'loc': fmtloc(loc), 'trace': trace or [], 'configs': [], 'firm': firm or not taint.new()}
            self.rules.setdefault(rule, [0, 0, 0])[1] += 1
        if configs and len(d['configs']) < 12: d['configs'].append(configs)
    def undecided(self, rule, where, why):
        key = '%s|%s' % (where, rule)
        if key not in self.undec:
            self.undec[key] = '%s: %s: %s' % (where, rule, why)
            self.rules.setdefault(rule, [0, 0, 0])[2] += 1
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def assume(self, t):
        if t not in self.assumptions: self.assumptions.append(t)
    # -- end
    def finish(self, floor):
        """floor: smallest number of discharged+failed obligations the check accepts as meaningful"""
        total = self.discharged + len(self.violations) + len(self.undec)
        unmodelled = taint.new()
        if unmodelled:
            # the value model does not cover this code: a difference seen here proves nothing
            for k in sorted(unmodelled): print('UNMODELLED: %s at %s' % (k, fmtloc(unmodelled[k])))
            for k, d in list(self.violations.items()):
                if d['firm']: continue
                self.undecided(d['rule'], d['where'] + ' ' + d['detail'], 'a difference, but the code uses constructs outside of the value model')
                self.rules[d['rule']][1] -= 1
                del self.violations[k]
        known = load_known()
        new = []; old = []
        for k, d in self.violations.items():
            hit = None
            for f in known:
                if f.get('property') == self.prop and f.get('key') == k: hit = f
            (old if hit else new).append((d, hit))
        for d, f in old:
            print('KNOWN-FINDING: property=%s %s: %s (%s) at %s' % (self.prop, d['where'], d['detail'], d['rule'], d['loc']))
        for u in self.undec.values(): print('UNDECIDED: ' + u)
        rdir = os.path.join(HERE, 'evidence', 'replay')
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': self.explanation,
                'obligations': total, 'discharged': self.discharged, 'undecided': len(self.undec),
                'violated': len(self.violations),
                'rules': {r: {'discharged': v[0], 'violated': v[1], 'undecided': v[2]} for r, v in sorted(self.rules.items())},
                'analysed': self.counts,
                'instances': {r: s for r, s in self.samples.items()},
                'undecided_list': list(self.undec.values()),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': [],
        }
        i = 0
        for d, _ in new:
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, '%s-%d.json' % (self.prop, i)); i += 1
            with open(p, 'w') as f: json.dump(d, f, indent=1)
            d['replay'] = p
            if i <= 25:
                print('%s: %s: %s: %s%s' % (d['loc'], d['where'], d['rule'], d['detail'], (' [%s]' % '; '.join(d['configs'][:3])) if d['configs'] else ''))
                for t in d['trace'][:8]: print('    ' + t)
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
            ev['violations'].append({'description': '%s: %s: %s' % (d['where'], d['rule'], d['detail']), 'replay': p})
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)
        if os.environ.get('WIZ_TAINT'):
            for k, v in taint.MET.items(): print('TAINT %r %s' % (k, v))
        print('%s %s: %d obligations, %d discharged, %d violated, %d undecided, %.1fs' % (self.prop, self.tier, total, self.discharged, len(new), len(self.undec), time.time() - self.t0))
        if new: return 1
        if self.discharged < floor and not unmodelled:
            print('ANALYSIS-BROKEN: only %d obligations discharged, %d expected at least' % (self.discharged, floor))
            return 2
        return 0

def fmtloc(loc):
    if loc is None: return '?'
    if isinstance(loc, str): return loc
    return '%s:%s (%s)' % tuple(loc[:3])

def load_known():
    p = os.path.join(HERE, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'): out.append(json.loads(l))
    return out
