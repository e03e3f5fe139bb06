#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
sys.dont_write_bytecode = True
import extract, fw, registry
if __name__ == "__main__":
    rc = 0
    for pid in sys.argv[1:]:
        try:
            rc = max(rc, registry.run(pid))
        except extract.ExtractError as e:
            print(e, file=sys.stderr)
            rc = 2
        except Exception as e:      # the engine met something it cannot handle: no verdict, recorded as such
            traceback.print_exc()
            if os.environ.get("VERIF_DEBUG"):
                raise
            c = fw.Check(pid, "analysis aborted")
            c.und("engine", "", f"{type(e).__name__}: {e}")
            rc = max(rc, c.finish())
    sys.exit(rc)
