#!/usr/bin/env python3
"""run.py <property id>: decides one property on /repo's current tree (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fv import build, checks
if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    if pid == "setup":   # nothing has to be prepared: every check builds what it needs from /repo's tree
        build.run_all([build.model_job()])
        print("setup ok")
        sys.exit(0)
    try:
        rc = getattr(checks, pid.lower())()
    except build.BuildError as e:
        print("BUILD ERROR: " + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
