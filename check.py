#!/usr/bin/env python3
"""check.py <property> [--thorough]   decides one property
   check.py replay <file>             re-runs a recorded violation
   check.py setup                     builds everything once"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import tv, run, native


def main():
    a = sys.argv[1:]
    if a[0] == "replay":
        return run.replay(a[1])
    if a[0] == "setup":
        print(tv.build())
        print(tv.build(nostd=True))
        print(native.build())
        return 0
    tier = "thorough" if "--thorough" in a else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run.main(a[0], tier, seed)


try:
    rc = main()
except tv.ToolError as e:
    print("ERROR: %s" % e)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
