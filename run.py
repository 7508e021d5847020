#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: decides one property on /repo's working tree. Exit 0 held, 1 violated."""
import sys, traceback
sys.dont_write_bytecode = True
from lib import core


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    res = core.Result(prop, tier)
    if prop[0] == "E":
        from lib import engine_checks as mod
    elif prop[0] == "C":
        from lib import mc_checks as mod
    elif prop[0] == "D":
        from lib import disp_checks as mod
    elif prop[0] == "V":
        from lib import variant_checks as mod
    elif prop[0] == "S":
        from lib import scxml_checks as mod
    elif prop[0] == "L":
        from lib import log_checks as mod
    else:
        raise SystemExit("unknown property " + prop)
    try:
        mod.run(res)
    except core.BuildError as e:
        print("BUILD-ERROR", e)
        sys.exit(2)
    sys.exit(core.finish(res))


main()
