#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]"""
import sys, os, importlib, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
sys.path.insert(0, os.path.join(here, 'rules'))
sys.setrecursionlimit(10000)
sys.dont_write_bytecode = True
import build, report


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    if '--setup' in args:
        # builds the exporter; checks build it themselves when it is missing
        build.irx()
        return 0
    rc = 0
    for p in args:
        rep = report.Report(p, tier)
        try:
            m = importlib.import_module(p)
            m.check(rep)
            rc = max(rc, report.finish(rep, getattr(m, 'LEVEL', 'other')))
        except build.Broken as e:
            if rep.viol:
                # violations were found before the analysis lost an anchor
                rc = max(rc, report.finish(rep))
                continue
            print('ANALYSIS-BROKEN property=%s %s' % (p, e))
            rc = max(rc, 3)
        except Exception:
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s internal error' % p)
            rc = max(rc, 3)
    build.prune()
    return rc


sys.exit(main())
