#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]"""
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "TZ": "UTC"}


def reexec():
    py = "/opt/venv/bin/python"
    want = os.environ.get("DSIM_HASHSEED", "0")
    e = dict(ENV, PYTHONHASHSEED=want)
    if os.path.realpath(sys.prefix) != "/opt/venv" or any(os.environ.get(k) != v for k, v in e.items()):
        if os.environ.get("DSIM_REEXEC"):
            return
        env = dict(os.environ, DSIM_REEXEC="1", **e)
        env.pop("PYTHONPATH", None)
        env.pop("DESIMETER_DATA", None)
        os.execve(py, [py, "-W", "ignore"] + sys.argv, env)


if __name__ == "__main__":
    reexec()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    if "--selftest" in sys.argv:
        from dsim import selftest
        sys.exit(selftest.environment())
    if "--determinism" in sys.argv:
        from dsim import selftest
        sys.exit(selftest.determinism([a for a in sys.argv[1:] if not a.startswith("-")]))
    if "--digests" in sys.argv:
        from dsim import selftest
        sys.exit(selftest.digests(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])))
    from dsim import driver
    sys.exit(driver.main())
