"""Shared helpers for the property modules."""
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

import numpy as np

from . import vfs
from .vfs import HarnessError
from .world import World, install_finder
from .sched import Scheduler, patch_locks


def fork_call(fn, *a, timeout=300):
    """Run fn in a forked process; returns its (pickled) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 1)
            if not os.environ.get("DSIM_DEBUG"):
                os.dup2(dn, 2)
            try:
                out = ("ok", fn(*a))
            except BaseException:
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out)
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    while True:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    os.waitpid(pid, 0)
    try:
        st, val = pickle.loads(buf)
    except Exception:
        return ("err", "forked helper died")
    return (st, val)


def table_dict(t):
    """Plain-python copy of an astropy Table (dict of lists)."""
    d = {}
    for c in t.colnames:
        col = t[c]
        v = col.tolist() if hasattr(col, "tolist") else list(col)
        d[c] = v
    return d


def truth_check(tab, ex, tol_pix=0.06, tol_fp=0.012, expect_all=True, check_loc=True,
                allow_unmatched=False, tol_wrong=None):
    """Compare a spot table (dict of lists) with the exposure truth.  Returns None or text."""
    from scipy.spatial import cKDTree
    need = ["XPIX", "YPIX"] + (["LOCATION", "PINHOLE_ID", "X_FP", "Y_FP"] if check_loc else [])
    for c in need:
        if c not in tab:
            return "column %s missing" % c
    n = len(tab["XPIX"])
    if expect_all and n != ex.n:
        return "%d rows for %d spots" % (n, ex.n)
    try:
        px = np.array(tab["XPIX"], float)
        py = np.array(tab["YPIX"], float)
    except (TypeError, ValueError):
        return "non-numeric pixel coordinates"
    if not (np.all(np.isfinite(px)) and np.all(np.isfinite(py))):
        return "non-finite pixel coordinates"
    d, i = cKDTree(np.c_[ex.xpix, ex.ypix]).query(np.c_[px, py])
    if d.max() > tol_pix:
        return "a spot is %.3f px from any true spot" % d.max()
    if len(set(i.tolist())) != n:
        return "two rows for one spot"
    if not check_loc:
        return None
    try:
        loc = np.array(tab["LOCATION"], float)
        pin = np.array(tab["PINHOLE_ID"], float)
        xf = np.array(tab["X_FP"], float)
        yf = np.array(tab["Y_FP"], float)
    except (TypeError, ValueError):
        return "non-numeric columns"
    tl, tp = ex.loc[i], ex.pin[i]
    wrong = (loc != tl) | (pin != tp)
    if allow_unmatched:
        wrong &= loc >= 0
    if np.any(wrong):
        k = int(np.where(wrong)[0][0])
        return "spot of LOCATION %d pinhole %d is labelled %s/%s (%d wrong)" % (
            tl[k], tp[k], loc[k], pin[k], int(wrong.sum()))
    dr = np.hypot(xf - ex.xfp[i], yf - ex.yfp[i])
    if not np.all(np.isfinite(dr)) or dr.max() > tol_fp:
        return "X_FP,Y_FP is %.4f mm from the true position" % float(np.nanmax(dr))
    return None


def same_table(a, b, tol=1e-2):
    """Rows in the same order, numbers within tol, strings equal.  None or text."""
    if a.keys() != b.keys():
        return "columns differ: %s" % sorted(set(a) ^ set(b))
    for c in a:
        if len(a[c]) != len(b[c]):
            return "%d rows, expected %d" % (len(a[c]), len(b[c]))
        for k, (x, y) in enumerate(zip(a[c], b[c])):
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if x != y and not (abs(x - y) <= tol * max(1.0, abs(y) if c == "COUNTS" else 1.0)) \
                        and not (x != x and y != y):
                    return "row %d %s: %r, expected %r" % (k, c, x, y)
            elif x != y and not (x in (None, "", "None") and y in (None, "", "None")):
                return "row %d %s: %r, expected %r" % (k, c, x, y)
    return None


class Viol:
    def __init__(self):
        self.items = []

    def add(self, sig, detail=""):
        if not any(v["sig"] == sig for v in self.items) and len(self.items) < 12:
            self.items.append({"sig": sig, "detail": str(detail)[:1500]})

    def __bool__(self):
        return bool(self.items)


def new_world(root, plan, keep_log=0, **kw):
    return World(root, seed=plan["seed"], np_seed=plan.get("np_seed", plan["seed"]),
                 faults=plan.get("faults", []), bufsize=plan.get("bufsize", 8192),
                 keep_log=keep_log, **kw)


def read_exc(v):
    return "%s: %s" % (type(v).__name__, str(v)[:300])


def gen_faults(rng, n, kinds, opslist, maxat, procs=(None,)):
    out = []
    for _ in range(n):
        k = rng.choice(kinds)
        f = {"kind": k, "at": rng.randrange(maxat), "ops": rng.choice(opslist)}
        p = rng.choice(procs)
        if p is not None:
            f["proc"] = p
        if k in ("torn", "short", "enospc", "eio"):
            f["frac"] = round(rng.random(), 3)
        out.append(f)
    return out
