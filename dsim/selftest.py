"""Environment check and determinism test of the simulator."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def props():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "props"))
                  if f.startswith("p") and f.endswith(".py") and f[1:-3].isdigit())


def environment():
    import numpy, scipy, astropy, fitsio, yaml
    print("python", sys.version.split()[0], "numpy", numpy.__version__, "scipy", scipy.__version__,
          "astropy", astropy.__version__, "fitsio", fitsio.__version__)
    sys.path.insert(0, VERIF)
    import dsim.driver, dsim.world, dsim.util, dsim.instrument
    d = dsim.driver.scratch_base()
    os.rmdir(d)
    print("scratch", d, "checks", " ".join(props()))
    return 0


def digests(pid, n, seed, ncpu):
    """One JSON line: digest of every run."""
    from . import driver
    import shutil
    driver.env_setup()
    prop = driver.load_prop(pid)
    base = driver.scratch_base()
    os.environ["MPLCONFIGDIR"] = base
    out = {}
    try:
        prop.setup(base)

        def on(tag, plan, res, c):
            out[str(tag)] = res["ok"]["digest"] if "ok" in res else "ERR " + res["err"][-200:]
        driver.run_many(prop, ((i, prop.gen(seed * 1000003 + i, "quick")) for i in range(n)),
                        base, ncpu, 200, on)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print("DIGESTS " + json.dumps(out, sort_keys=True))
    return 0


def determinism(pids, n=24, seed=5):
    """Same seeds in fresh interpreters: other hash seeds, other worker counts."""
    bad = 0
    for pid in pids or props():
        res = []
        for hs, ncpu in (("0", 8), ("1", 3), ("77", 8)):
            env = dict(os.environ, DSIM_HASHSEED=hs)
            env.pop("DSIM_REEXEC", None)
            env.pop("PYTHONHASHSEED", None)
            o = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--digests", pid, str(n),
                                str(seed), str(ncpu)], env=env, capture_output=True, text=True)
            line = [x for x in o.stdout.splitlines() if x.startswith("DIGESTS ")]
            res.append(json.loads(line[0][8:]) if line else {"error": o.stderr[-500:]})
        diff = [k for k in res[0] if any(r.get(k) != res[0][k] for r in res[1:])]
        errs = [k for k, x in res[0].items() if str(x).startswith("ERR") or k == "error"]
        print("%s: %d seeds x 3 interpreters, %d differ, %d errors %s" % (
            pid, len(res[0]), len(diff), len(errs), diff[:5]))
        bad += len(diff) + len(errs)
    return 1 if bad else 0
