#!/usr/bin/env python3
"""Builds the framework once; every check builds again what it needs from /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
seed = int(os.environ.get("VERIF_SEED", "1")) & 0x7fffffff
try:
    print(vlib.build_monitor(seed, os.environ.get("VERIF_TIER", "quick")))
except vlib.Harness as e:
    print(e)
    sys.exit(1)
