#!/usr/bin/env python3
"""check.py <property id> [args]: rebuild what the check needs from /repo's working tree, run it, leave the evidence file."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
cid = sys.argv[1]
exe, err = build.build_check(cid)
if err:
    sys.stderr.write(err[:6000] + "\n")
    print(f"check {cid}: build failed")
    sys.exit(2)
os.environ["VERIF_DIR"] = build.VERIF
sys.stdout.flush()
os.execv(exe, [exe] + sys.argv[2:])
