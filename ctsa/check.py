"""python3 -m ctsa.check <property> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from ctsa import report
    from ctsa.program import AnalysisBroken
    try:
        mod = importlib.import_module('ctsa.checks.' + pid.lower())
        rep = report.Report(pid)
        r = mod.run(rep, report.REPO, tier)
        return report.finish(rep, tier, seed, floors=getattr(mod, 'FLOORS', None), prog=r)
    except AnalysisBroken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN property=%s: internal error' % pid)
        return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
