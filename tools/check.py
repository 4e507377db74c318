#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import props


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop == "build":
        build()
        build(HOOKS, "vhh")
        return 0
    c = Check(prop, tier, seed)
    try:
        vh = build(HOOKS, "vhh") if prop in props.HOOKED else build()
        getattr(props, prop)(c, vh)
        return c.finish()
    except ToolError as e:
        log(f"TOOL ERROR: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
