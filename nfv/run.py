"""./check.sh Cxx quick|thorough|replay [path]   (all = every check, one after another)"""
import os
import sys

from . import core


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if mode == "replay":
        return core.replay(prop, sys.argv[3])
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if prop == "all":
        rc = 0
        for f in sorted(os.listdir(os.path.join(core.VERIF, "checks"))):
            if f.startswith("c") and f.endswith(".py"):
                rc = max(rc, core.run_check(f[:-3].upper(), mode, seed))
                sys.stdout.flush()
        return rc
    return core.run_check(prop, mode, seed)


sys.exit(main())
