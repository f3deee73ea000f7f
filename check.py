#!/usr/bin/env python3
"""check.py PROPERTY            run the check of one property (tier and seed from the environment)
   check.py --setup             build the extractor and the replay harness
   check.py --replay FILE       run a recorded failing input against the real code again"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    a = sys.argv[1:]
    os.environ["VERIF_PROPERTY"] = "C27"  # setup prepares the regenerated copy as well
    if a and a[0] != "--setup":
        import json
        os.environ["VERIF_PROPERTY"] = json.load(open(a[1]))["property"] if a[0] == "--replay" and len(a) > 1 else a[0]
    from vlib import driver
    if a and a[0] == "--setup":
        sys.exit(driver.setup())
    if a and a[0] == "--replay":
        sys.exit(driver.replay(a[1]))
    if len(a) != 1:
        print(__doc__)
        sys.exit(2)
    sys.exit(driver.main(a[0]))
