#!/usr/bin/env python3
"""run.py <property id>: decides one property on /repo's working tree; exit 0 held, 1 violated, 2 no answer"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
import checks
if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        rc = checks.CHECKS[pid]()
    except vf.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (pid, e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
