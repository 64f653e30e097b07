#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from checks import core, effects, parser
    if prop == "C13":
        R = effects.check_c13(tier)
    elif prop == "C14":
        R = effects.check_c14(tier)
    elif prop in core.RULES:
        R = core.check(prop, tier)
    elif prop in parser.PROPS:
        R = parser.check(prop, tier)
    else:
        raise SystemExit("unknown property " + prop)
    return R.finish(tier)


if __name__ == "__main__":
    sys.exit(main())
