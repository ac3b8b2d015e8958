#!/usr/bin/env python3
"""python3 run.py <property id>  — runs the check of one property. VERIF_TIER, VERIF_SEED."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ck = vlib.Check(pid, tier, seed)
    try:
        checks.REGISTRY[pid](ck)
        rc = ck.finish(checks.LEVEL.get(pid, 'exploration'))
    except vlib.CheckError as e:
        print('CHECK-ERROR %s: %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
