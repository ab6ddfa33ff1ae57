#!/usr/bin/env python3
"""check.py Cxx -- decide one property on /repo's current sources (static analysis only)."""
import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import front, report, access


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("sa.rules." + pid.lower())
    try:
        prog = front.load()
        ck = report.Check(pid, mod.TITLE)
        try:
            mod.run(prog, ck)
        except front.AnalysisError:
            raise
        except Exception as e:      # a shape the rules do not handle: what is left counts as undecided
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            ck.und("analysis", "rest of the check", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno))
            print("ANALYSIS-INCOMPLETE: %s %s" % (type(e).__name__, str(e)[:200]))
        try:
            access.apply(prog, ck)
        except front.AnalysisError:
            raise
        except Exception as e:
            ck.und("access", "all", "%s: %s" % (type(e).__name__, str(e)[:200]))
    except front.AnalysisError as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    return ck.finish(prog)


if __name__ == "__main__":
    sys.exit(main())
