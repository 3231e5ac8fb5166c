#!/usr/bin/env python3
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(50000)
import ir
from common import Report


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    mod = importlib.import_module(pid.lower())
    R = Report(pid, mod.RULE)
    try:
        mod.run(R)
    except ir.AnalysisError as e:
        R.broken.append(str(e))
    except Exception:
        R.broken.append(traceback.format_exc())
    sys.exit(R.finish())


main()
