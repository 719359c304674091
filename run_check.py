#!/usr/bin/env python3
"""Runs the check of one property: run_check.py C01 [--thorough] [--replay FILE]

Tier and seed come from VERIF_TIER (quick, thorough) and VERIF_SEED.  Exit codes: 0 held, 1 violated (with a VIOLATION
line), 2 the check itself failed or observed nothing.
"""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib


def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        return vlib.replay(sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    run = vlib.Run(prop, tier, seed & 0x7fffffff)
    if prop in vlib.MONITOR:
        vlib.monitor(run)
    elif prop == "C11":
        import c11
        c11.check(run)
    elif prop == "C13":
        import c13
        c13.check(run)
    elif prop == "C15":
        import c15
        c15.check(run)
    elif prop == "C16":
        import c16
        c16.check(run)
    elif prop == "C21":
        import c21
        c21.check(run)
    elif prop == "C23":
        import c23
        c23.check(run)
    elif prop == "C22":
        import c22
        c22.check(run)
    elif prop == "C25":
        import c25
        c25.check(run)
    else:
        raise vlib.Harness("no check for " + prop)
    return run.finish()


if __name__ == "__main__":
    try:
        code = main()
    except vlib.Harness as e:
        print("ERROR: %s" % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
