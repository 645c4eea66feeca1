#!/usr/bin/env python3
"""Usage: check.py PROPERTY. Decides one property by running the real generator and watching it."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import common

ALL = {}


def prop(pid, rule):
    def deco(f):
        ALL[pid] = (f, rule)
        return f
    return deco


def main():
    pid = sys.argv[1]
    import checks_a, checks_b, checks_c, checks_d
    f, rule = ALL[pid]
    c = Check(pid, rule)
    try:
        f(c)
        if not c.violations:
            try:
                import findings
                findings.run_probes(c)
            except Inconclusive:
                pass
    except Inconclusive as x:
        # An application that no longer builds against the repository cannot be observed
        print("INCONCLUSIVE property=%s %s" % (pid, x))
        sys.exit(3)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(4)
    c.finish()


if __name__ == "__main__":
    # The checks register themselves with this module, not with a second copy of it
    sys.modules["check"] = sys.modules["__main__"]
    main()
