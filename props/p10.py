"""P10  detect_and_match_moving_positioners: what was moved is found between two series of exposures, and nothing else."""
import math
import os
import random
import warnings

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder, table_dict
from props.p01 import _desi_fvc_proc

STATS = []


def wrap(deg):
    return (deg + 180.) % 360. - 180.


class P(Prop):
    id = "P10"
    rule = ("one case = a simulated focal plane of which some positioners turn between two series of exposures of a moving camera, with dark fibres, stray spots, stuck "
            "positioners and disk faults, analysed by detect_and_match_moving_positioners; non-trivial = its table was compared with the moves")
    state_measure = "(spots, moved, stuck, dark, exposures before and after, input kind, options, rows, faults, outcome)"
    real = ["bin/detect_and_match_moving_positioners", "averagecoord", "match", "simplecorr", "fvc2fp", "ptl2fp", "xy2qs", "processfvc"]
    stubs = ["positioners, camera and optics", "disk faults", "process deaths"]
    assumptions = ["moves are not within 12 microns of the limits, after the best affine correction of the camera", "dark fibres and stray spots are apart from each other"]
    must_probe = ["moved", "stuck", "dark", "stray", "several", "shift", "reported", "none", "too_far", "too_small", "centre", "options", "image", "blink"]
    tiers = {"quick": {"runs": 1200, "cap_s": 55, "run_timeout": 150, "min_s": 40},
             "thorough": {"runs": 30000, "cap_s": 1500, "run_timeout": 200, "min_s": 150}}

    def setup(self, base):
        install_finder()
        for n in ("astropy.table", "astropy.io.ascii", "scipy.spatial", "matplotlib.pyplot"):
            __import__(n)
        self.inst = {"tiny%d" % k: I.tiny(base, k) for k in range(3)}
        self.inst["mini"] = I.MiniInstrument(base)

    def gen(self, seed, tier):
        r = random.Random("p10gen/%d" % seed)
        opts = {}
        if r.random() < 0.5:
            for k, q in (("min-move-mm", [0.08, 0.2]), ("max-move-mm", [0.3, 1.0]), ("min-dist-from-center-mm", [0, 1.5, 2.5, 4.]), ("max-match-radius-mm", [3.5, 5, 8])):
                if r.random() < 0.4:
                    opts[k] = r.choice(q)
        faults = []
        if r.random() < 0.3:
            k = r.choice(["eio", "emfile", "crash", "enospc", "torn"])
            faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 8])), "frac": 0.5, "once": True,
                           "ops": {"eio": ["open_r"], "emfile": ["open_r"], "crash": ["open_r", "open_w", "write"], "enospc": ["write"], "torn": ["write"]}[k]})
        return {"seed": seed, "inst": r.choice(["tiny0", "tiny1", "tiny2", "mini"]), "frac": r.choice([0.03, 0.08, 0.08, 0.15]), "stuck": r.choice([0, 0, 0.3]),
                "far": r.choice([0, 0, 0.2]), "small": r.choice([0, 0, 0.2]), "dark": r.choice([0, 0, 1, 3]), "stray": r.choice([0, 0, 1, 3]),
                "nb": r.choice([1, 1, 2, 3]), "na": r.choice([1, 1, 2, 3]), "cam": r.choice([0, 1e-4, 5e-4]), "noise": r.choice([0, 0.003, 0.01]),
                "rmax": r.choice([4.3, 4.3, 3.0]), "opts": opts, "image": r.random() < 0.15, "twice": r.random() < 0.3, "blink": r.choice([0, 0, 1, 3]), "extra_ids": r.random() < 0.4,
                "faults": faults, "_lists": ["faults"]}

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        inst = self.inst[plan["inst"]]
        w.use_data(inst.datadir)
        w.programs["desi_fvc_proc"] = _desi_fvc_proc
        w.install()
        try:
            n = self.scene(w, v, plan, inst, faults)
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=1, evals=n)

    def scene(self, w, v, plan, inst, faults):
        r = random.Random("p10/%d" % plan["seed"])
        fp = inst.fp
        tx = inst.tx(None)
        idx, x, y = I.scatter_fibres(fp, r, plan["rmax"], min_sep=4.0, fid_sep=4.0)
        n = len(idx)
        cx, cy = fp.x[idx], fp.y[idx]
        kind = np.array(["still"] * n, dtype=object)
        for k in range(n):
            if r.random() < plan["frac"]:
                q = r.random()
                kind[k] = "stuck" if q < plan["stuck"] else "far" if q < plan["stuck"] + plan["far"] else "small" if q < plan["stuck"] + plan["far"] + plan["small"] else "moved"
        if not any(kind != "still"):
            kind[r.randrange(n)] = "moved"
        x2, y2 = x.copy(), y.copy()
        for k in range(n):
            if kind[k] in ("still", "stuck"):
                continue
            d = {"moved": r.uniform(0.12, 0.42), "far": r.uniform(0.6, 1.2), "small": r.uniform(0.02, 0.04)}[kind[k]]
            a = r.uniform(0, 2 * math.pi)
            x2[k], y2[k] = x[k] + d * math.cos(a), y[k] + d * math.sin(a)
        fx, fy = fp.x[fp.ifid], fp.y[fp.ifid]
        # all the spots: before, after; None where there is none
        B = [(a, b) for a, b in zip(x, y)] + [(a, b) for a, b in zip(fx, fy)]
        A = [(a, b) for a, b in zip(x2, y2)] + [(a, b) for a, b in zip(fx, fy)]
        who = list(range(n)) + [None] * len(fx)
        bare = []

        def apart(px, py, lim=22.):
            return all(math.hypot(px - a, py - b) > lim for a, b in bare)
        for _ in range(plan["dark"]):
            k = r.randrange(n)
            if apart(x[k], y[k]):
                bare.append((x[k], y[k]))
                s = r.randrange(3)
                if s != 1:
                    B[k] = None
                if s != 0:
                    A[k] = None
        for _ in range(plan["stray"]):
            k = r.randrange(n)
            if apart(cx[k], cy[k]):
                for _ in range(30):
                    px, py = cx[k] + r.uniform(-6, 6), cy[k] + r.uniform(-6, 6)
                    if all(math.hypot(px - q[0], py - q[1]) > 2.5 for q in A + B if q):
                        bare.append((px, py))
                        s = r.randrange(2)
                        B.append((px, py) if s else None)
                        A.append(None if s else (px, py))
                        who.append(None)
                        break
        # is every spot the nearest of its own? (an unmatched one has a nearest which is nearer to its own)
        from scipy.spatial import cKDTree
        ib = [k for k in range(len(B)) if B[k]]
        ia = [k for k in range(len(A)) if A[k]]
        d, j = cKDTree(np.array([B[k] for k in ib])).query(np.array([A[k] for k in ia]))
        near = {}
        for q, (dd, jj) in enumerate(zip(d, j)):
            near.setdefault(ib[jj], []).append((dd, ia[q]))
        both = {k for k in range(len(A)) if A[k] and B[k]}
        if any(min(p)[1] != k for k, p in near.items()) or set(near) != both:
            return 0
        # what remains after the best affine correction of the camera
        ks = sorted(both)
        H = np.array([[1, B[k][0], B[k][1]] for k in ks])
        res = np.array([[A[k][0], A[k][1]] for k in ks])
        res = res - H @ np.linalg.lstsq(H, res, rcond=None)[0]
        dist = {k: math.hypot(*res[q]) for q, k in enumerate(ks)}
        o = {"min-move-mm": 0.05, "max-move-mm": 0.5, "min-dist-from-center-mm": 3., "max-match-radius-mm": 7.}
        o.update(plan["opts"])
        listed = [k for k in range(n) if kind[k] != "still"]
        want = {}
        for k in sorted(both):
            i = who[k]
            if any(abs(dist[k] - o[q]) < 0.012 for q in ("min-move-mm", "max-move-mm")):
                return 0
            if not o["min-move-mm"] < dist[k] < o["max-move-mm"]:
                continue
            if i is None or i not in listed:
                return 0                     # too many moves for the correction
            c = math.hypot(x2[i] - cx[i], y2[i] - cy[i])
            if abs(c - o["min-dist-from-center-mm"]) < 0.03 or abs(c - o["max-match-radius-mm"]) < 0.03:
                return 0
            if o["min-dist-from-center-mm"] < c < o["max-match-radius-mm"]:
                want[i] = k
            else:
                w.probe("centre")
        for i in listed:
            if any(j != i and math.hypot(x2[i] - cx[j], y2[i] - cy[j]) < math.hypot(x2[i] - cx[i], y2[i] - cy[i]) + .05 for j in listed):
                return 0
        ids = [fp.devid[idx[i]] for i in listed]
        if plan["extra_ids"]:
            ids += ["M99999", "M00001"]
        r.shuffle(ids)
        # the exposures; those after the move by the nominal camera
        names = {"b": [], "a": []}
        rng = np.random.default_rng(plan["seed"])
        for s, sky, m in (("b", B, plan["nb"]), ("a", A, plan["na"])):
            for e in range(m):
                off = set()
                if e > 0 and plan.get("blink"):
                    # fibres which are not seen in each exposure of the series
                    off = {r.randrange(n) for _ in range(plan["blink"])}
                    w.probe("blink")
                pts = [q for k, q in enumerate(sky) if q and k not in off]
                t = inst.tx(None)
                if (s == "b" or e > 0) and plan["cam"]:
                    t.scale *= 1 + r.uniform(-1, 1) * plan["cam"]
                    t.rotation += r.uniform(-1, 1) * plan["cam"]
                    t.offset_x += r.uniform(-1, 1) * plan["cam"]
                    t.offset_y += r.uniform(-1, 1) * plan["cam"]
                    w.probe("shift")
                px, py = t.fp2fvc(np.array([q[0] for q in pts]), np.array([q[1] for q in pts]))
                px, py = px + rng.normal(0, 1, len(px)) * plan["noise"], py + rng.normal(0, 1, len(px)) * plan["noise"]
                rows = [(float(a), float(b)) for a, b in zip(px, py)]
                r.shuffle(rows)
                f = w.path("work", "%s%d" % (s, e))
                if plan["image"]:
                    ex = object.__new__(I.Exposure)
                    ex.inst = inst
                    ex.xpix, ex.ypix = (np.array(q) for q in zip(*rows))
                    ex.counts = rng.uniform(4e4, 8e4, len(rows))
                    f = w.put(f + ".fits", I.fits_bytes([(None, ex.image(rng), {})]))
                    w.probe("image")
                else:
                    f = w.put(f + ".csv", ("XPIX,YPIX,COUNTS\n" + "".join("%r,%r,%d\n" % (a, b, 50000 + k) for k, (a, b) in enumerate(rows))).encode())
                names[s].append(f)
        out = w.path("work", "moved.csv")
        old = b"DEVICE_ID,X_FP\nM00000,1.0\n"
        if plan["twice"]:
            w.put(out, old)
        a = ["--before-moves"] + names["b"] + ["--after-moves"] + names["a"] + ["-p", ",".join(ids), "-o", out]
        for k, q in sorted(plan["opts"].items()):
            a += ["--" + k, str(q)]
        inputs = {f: w.durable(f) for q in names.values() for f in q}
        what = "detect_and_match_moving_positioners of %d spots, %d positioners moved" % (len(A), len(listed))
        w.faults = faults
        f0 = sum(w.fired.values())
        st, val = w.run_script(w.new_process("detect"), "detect_and_match_moving_positioners", a)
        hit = sum(w.fired.values()) > f0
        code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
        w.state(len(A), len(listed), len(want), plan["dark"], plan["nb"], plan["na"], plan["image"], sorted(plan["opts"]), sorted(w.fired), code)
        w.faults = []
        if any(w.durable(f) != q for f, q in inputs.items()):
            v.add("input-modified", "%s changes its input" % what)
        if code:
            if hit:
                w.probe("reported")
            else:
                v.add("failed", "%s: %s" % (what, read_exc(val) if st == "exc" else val))
            return 0
        if not want:
            w.probe("none")
            if w.durable(out) != (old if plan["twice"] else None):
                v.add("false", "%s: none of them is to be listed, but a table is written" % what)
            return 1
        try:
            from astropy.table import Table
            t = table_dict(Table.read(out))
            t["DEVICE_ID"]
        except Exception as e:
            v.add("unreadable", "%s: %s" % (what, read_exc(e)))
            return 1
        w.log("rows", sorted((str(a), round(float(b), 5)) for a, b in zip(t["DEVICE_ID"], t["X_FP"])))
        self.probes(w, plan, kind, listed, want)
        self.rows(w, v, what, t, {fp.devid[idx[i]]: (idx[i], x2[i], y2[i]) for i in want}, fp, tx, plan)
        return 1

    def probes(self, w, plan, kind, listed, want):
        w.probe("moved")
        for k, p in (("stuck", "stuck"), ("far", "too_far"), ("small", "too_small")):
            if any(kind[i] == k for i in listed):
                w.probe(p)
        for k in ("dark", "stray"):
            if plan[k]:
                w.probe(k)
        if plan["nb"] > 1 or plan["na"] > 1:
            w.probe("several")
        if plan["opts"]:
            w.probe("options")

    def rows(self, w, v, what, t, truth, fp, tx, plan):
        from dref.ptl2fp import fp2ptl
        from dref.xy2qs import xy2qs
        got = [str(q) for q in t["DEVICE_ID"]]
        if len(set(got)) != len(got):
            v.add("twice", "%s: %s" % (what, got))
            return
        if set(got) - set(truth):
            v.add("false", "%s: %s did not move so" % (what, sorted(set(got) - set(truth))))
            return
        if set(truth) - set(got):
            v.add("lost", "%s: %s moved and is not listed" % (what, sorted(set(truth) - set(got))))
            return
        tol = 0.012 + (0.02 if plan["image"] else 0)
        for k, name in enumerate(got):
            i, x, y = truth[name]
            g = {c: t[c][k] for c in t}
            px, py = tx.fp2fvc(np.array([x]), np.array([y]))
            d, dp = math.hypot(float(g["X_FP"]) - x, float(g["Y_FP"]) - y), math.hypot(float(g["XPIX"]) - px[0], float(g["YPIX"]) - py[0])
            STATS.append(("pos%d" % (plan["na"] > 1), d / tol, dp / tol / 7))
            if not d < tol or not dp < 7.5 * tol:
                v.add("position", "%s: %s is %.3f mm and %.3f pixels off" % (what, name, d, dp))
                return
            if int(g["PETAL_LOC"]) != fp.pet[i] or int(g["DEVICE_LOC"]) != fp.dev[i] or abs(float(g["X_FP_METRO"]) - fp.x[i]) > 1e-6 or abs(float(g["Y_FP_METRO"]) - fp.y[i]) > 1e-6:
                v.add("identity", "%s: %s has %s" % (what, name, {c: g[c] for c in ("PETAL_LOC", "DEVICE_LOC", "X_FP_METRO", "Y_FP_METRO")}))
                return
            p = fp2ptl(int(fp.pet[i]), np.array([float(g["X_FP"])]), np.array([float(g["Y_FP"])]))
            q, ss = xy2qs(np.array([float(p[0][0])]), np.array([float(p[1][0])]))
            if abs(float(g["PTL_X"]) - p[0][0]) > 2e-3 or abs(float(g["PTL_Y"]) - p[1][0]) > 2e-3 or abs(wrap(float(g["Q"]) - q[0])) > 1e-3 or abs(float(g["S"]) - ss[0]) > 5e-3:
                v.add("petal-frame", "%s: %s: %s" % (what, name, {c: g[c] for c in ("PTL_X", "PTL_Y", "Q", "S")}))
                return


PROP = P()
