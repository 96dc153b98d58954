#!/usr/bin/env python3
"""python3 check.py ID          run the check of one property (VERIF_SEED, VERIF_TIER)
python3 check.py --replay FILE  run a recorded violation again"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import engine, props  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(engine.replay(sys.argv[2]))
    if len(sys.argv) != 2:
        sys.exit(__doc__)
    sys.exit(engine.main(sys.argv[1], props.jobs_for, props.builds_for))
