#!/usr/bin/env python3
"""check.py <property id> quick|thorough   |   check.py setup"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core

if len(sys.argv) > 1 and sys.argv[1] == "setup":
    try:
        print("built in %.1fs + %.1fs" % (core.build(), core.build("release")))
    except core.ToolError as e:
        print(e)
        sys.exit(2)
    sys.exit(0)
from vf import checks
sys.exit(core.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"), checks.REGISTRY))
