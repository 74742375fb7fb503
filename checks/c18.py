"""Effect analysis: the abstract execution of every computation under every option records each call that
leaves the package, each write to a module, class or function attribute, each store into memory that
outlives the call and each use of memory before it is written.  Random numbers, clocks, environment,
files, processes, global numerical settings and memory shared between calls are not allowed."""
import ast
from sa import allruns, pkg, kern

DENY = ('random', 'numpy.random', 'time', 'datetime', 'os', 'sys', 'subprocess', 'shutil', 'tempfile', 'pathlib', 'io', 'socket', 'threading', 'multiprocessing', 'uuid', 'secrets', 'logging', 'gc',
        'builtins.open', 'builtins.id', 'builtins.hash', 'builtins.input', 'builtins.exec', 'builtins.eval', 'builtins.globals', 'builtins.setattr',
        'numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.save', 'numpy.savez', 'numpy.savetxt', 'numpy.load', 'numpy.loadtxt', 'numpy.fromfile', 'numpy.tofile', 'numpy.memmap',
        'numpy.genfromtxt', 'numpy.getbufsize', 'pickle', 'json.dump', 'matplotlib', 'warnings.simplefilter', 'warnings.filterwarnings')
# saving and restoring a plane of the curled-wake example is a file operation by purpose
PURE = {'os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'sys.exc_info', 'sys.float_info', 'sys.maxsize', 'sys.version_info'}

def denied(name):
    if name in PURE: return False
    return any(name == d or name.startswith(d + '.') for d in DENY)

def run(rep, repo, tier):
    for r in allruns.everything(repo, tier): one(rep, r)
    return 250

def fn(loc): return loc[2] if loc and len(loc) > 2 else '?'

def one(rep, r):
    it = r.it
    rep.count('configurations')
    bad = False
    cfg = '%s %s' % (r.key, r.label)
    n = 0
    for e in it.events:
        if e.kind == 'extcall':
            n += 1
            for a in list(e.args) + list((getattr(e, 'kw', None) or {}).values()):
                if type(a).__name__ == 'Ext' and denied(a.name):
                    bad = True; rep.fail('no outside effect or input', fn(e.loc), 'passes %s on to be called' % a.name, e.loc, configs=cfg, firm=True)
            if denied(e.name):
                bad = True; rep.fail('no outside effect or input', fn(e.loc), 'calls %s' % e.name, e.loc, configs=cfg, firm=True)
        elif e.kind == 'globalwrite':
            bad = True; rep.fail('nothing is remembered between calls', fn(e.loc), 'writes %s' % e.name, e.loc, configs=cfg, firm=True)
        elif e.kind == 'write':
            for o in sorted(e.origins):
                if o.startswith(('global:', 'default:')):
                    bad = True; rep.fail('nothing is remembered between calls', fn(e.loc), '%s stores into %s' % (e.how, o), e.loc, configs=cfg)
    rep.count('outside calls', n)
    if not r.dead and r.value is not None:
        L = [(p + s, nd) for p, v in kern.outputs(it, r.value) for s, nd in kern.nodes_of(it, v)]
        for p, nd in L:
            for x in it.g.reach([nd]).values():
                if x.op == 'uninit' or x.op == 'fn' and isinstance(x.attr, str) and denied(x.attr):
                    bad = True; rep.fail('results do not depend on unwritten memory', r.key, 'output %s reads memory never written' % p, nd.loc, configs=cfg); break
    if not bad: rep.ok('deterministic and free of side effects', cfg)
