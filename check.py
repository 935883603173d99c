#!/usr/bin/env python3
"""check.py CNN... : decides the named properties on /repo's current working tree by static analysis."""
import importlib, os, resource, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))      # a check that runs away ends by itself
from engine import facts


def main(ids):
    rc = 0
    try:
        prog = facts.load()
    except Exception as e:
        print("ERROR: no facts: %s" % e)
        return 2
    for pid in ids:
        try:
            m = importlib.import_module("checks." + pid.lower())
            r = m.run(prog)
        except Exception:
            traceback.print_exc()
            print("ERROR: %s gave no answer" % pid)
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit("usage: check.py CNN...")
    sys.exit(main(sys.argv[1:]))
