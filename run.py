#!/usr/bin/env python3
"""python3 run.py <property id> [quick|thorough]: decide one property on /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import warnings; warnings.simplefilter("ignore")

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    repo = os.environ.get('WIZ_REPO', '/repo')
    from sa.report import Report, Broken
    from sa.kern import Anchor
    mod = importlib.import_module('checks.' + prop.lower())
    rep = Report(prop, tier, explanation=' '.join((mod.__doc__ or '').split()))
    try:
        floor = mod.run(rep, repo, tier)
    except (Anchor, Broken) as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        if os.environ.get('WIZ_STRICT') or not rep.discharged:
            print('ANALYSIS-BROKEN: internal error')
            return 4
        # what was decided before stands; the rest is reported as undecided
        rep.undecided('internal error', mod.__name__, traceback.format_exc().strip().splitlines()[-1])
        return rep.finish(0)
    return rep.finish(floor)

if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start(); t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 5)
