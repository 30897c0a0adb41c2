#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's working tree. Exit 0 held, 1 violated, 2 the check failed."""
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vlib.Check(pid, tier, seed)
    try:
        getattr(checks, pid)(c)
        return c.finish()
    except vlib.CheckError as e:
        print("CHECK ERROR (%s): %s" % (pid, e), file=sys.stderr, flush=True)
        if c.violations:   # already confirmed before the machinery failed
            return c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
