#!/usr/bin/env python3
"""replay.py FILE: re-run a recorded violation; exit 1 when it reproduces."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
if __name__ == "__main__":
    check.reexec()
    from dsim import driver
    sys.exit(driver.replay(sys.argv[1]))
