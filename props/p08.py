"""P08  fit_posparams: one bad positioner never takes others down, and no failure is silent."""
import random

import numpy as np

from dsim import fleet
from dsim.driver import Prop, outcome
from dsim.pool import PoolHang
from dsim.util import Viol, new_world, read_exc, install_finder
from props.p07 import load_fit, diff, run_fit

THETA_STUCK, FAILED, INVALID_TABLE, AFTER_FILTER = 1, 4, 8, 16
DEFECTS = ["few", "otherid", "mixedid", "header", "empty", "nocol", "garbage", "truncated", "nan", "norehome", "twopetals", "stuck", "part"]


class P(Prop):
    id = "P08"
    rule = ("one case = one seeded batch of good, defective and stuck positioners fit by fit_posparams with faults on its files; "
            "non-trivial = at least one positioner in the batch")
    state_measure = "(worker count, set of defects in the batch, fault kinds fired, exit status)"
    real = ["bin/fit_posparams", "posparams.fithandler", "posparams.fitter", "astropy table reader and writer"]
    stubs = ["process pool", "positioners and FVC measurements", "disk faults", "clock"]
    assumptions = ["the worker processes are not killed by the system (multiprocessing.Pool then waits for ever)"]
    must_probe = ["pool_tasks", "good_ok", "flagged", "reported", "serial", "enospc", "eio"] + ["defect_" + d for d in DEFECTS]
    tiers = {"quick": {"runs": 260, "cap_s": 75, "run_timeout": 200, "min_s": 60},
             "thorough": {"runs": 8000, "cap_s": 1800, "run_timeout": 300, "min_s": 120}}

    def setup(self, base):
        install_finder()
        fleet.site(0, 0)
        for n in ("astropy.table", "scipy.optimize", "astropy.time"):
            __import__(n)

    def gen(self, seed, tier):
        r = random.Random("p08gen/%d" % seed)
        n = r.choice([1, 1, 2, 3, 4, 5, 6])
        pos = []
        windows = r.random() < 0.15        # several data windows, one per sequence
        for k in range(n):
            d = r.choice(DEFECTS) if r.random() < 0.55 else None
            if d == "part" and not windows or windows and r.random() < 0.4:
                d = "part" if windows else "stuck"
            sp = fleet.spec(r, k, many=0 if windows else 0.05, defect=None if d in ("stuck", "part") else d)
            if d == "stuck":
                sp["stuck"] = "theta"
                sp["seqs"] = [{"kind": "arc", "n": 16, "rehome": True, "eps": [0, 0]}]
                sp["disabled"] = 0
            if windows:
                m = r.randint(2, 4)
                sp.update(disabled=0, idle=0, order="time",
                          seqs=[{"kind": "arc", "n": 16, "rehome": True, "eps": [0, 0]} for _ in range(m)])
                if d == "part":            # the theta motor works in some of the windows only
                    sp["stuck"] = "part"
                    for i in r.sample(range(m), r.randint(1, m - 1)):
                        sp["seqs"][i]["stuck"] = 1
            pos.append(sp)
        if n > 1 and all(p["defect"] or p["stuck"] for p in pos):
            pos[r.randrange(n)].update(defect=None, stuck=None)
        faults = []
        if r.random() < 0.5:
            for _ in range(r.randint(1, 3)):
                k = r.choice(["enospc", "enospc", "eio", "eio", "short", "emfile", "eacces"])
                faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 6])), "frac": round(r.random(), 3),
                               "ops": {"enospc": ["write", "open_w"], "short": ["write"], "emfile": ["open_r", "open_w"],
                                       "eio": r.choice([["open_r"], ["write"], ["write", "open_w", "open_r"]]),
                                       "eacces": ["open_w", "unlink"]}[k]})
        return {"seed": seed, "pos": pos, "np": r.choice([1, 1, 2, 3, 5, None]), "faults": faults,
                "outlier": r.random() < 0.3, "verbose": r.random() < 0.3, "old": r.random() < 0.3,
                "pool": {"seed": r.randrange(1 << 20), "eager": r.choice([0, 0.3, 1]), "cpu_count": r.randint(1, 6)},
                "extra": r.random() < 0.2, "dw": 16 if windows else None, "_lists": ["pos", "faults"]}

    def run(self, plan, root, keep_log=0):
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        w.install()
        ngood = 0
        try:
            pos, files, truth = plan["pos"], [], []
            for sp in pos:
                p, rows = fleet.build(sp)
                truth.append((p, rows))
                files.append(w.put(w.path("work", "in", sp["posid"] + ".csv"), fleet.table_bytes(sp, rows)))
                d = sp["defect"] or {"theta": "stuck"}.get(sp["stuck"], sp["stuck"])
                if d:
                    w.probe("defect_" + d)
            if plan["extra"]:        # not a positioner file
                files.append(w.put(w.path("work", "in", "README.txt"), b"nothing"))
                files.append(w.put(w.path("work", "in", "summary.csv"), b"A,B\n1,2\n"))
            opts = (["--outlier-rejection"] if plan["outlier"] else []) + (["-v"] if plan["verbose"] else [])
            opts += ["-dw", str(plan["dw"])] if plan.get("dw") else []
            ref = {}
            for k, sp in enumerate(pos):
                if sp["defect"] or sp["stuck"]:
                    continue
                w.pool_plan = {"seed": 1, "eager": 0, "cpu_count": 1}
                st, val = run_fit(w, w.new_process("alone%d" % k), [files[k]], "alone", opts + ["-np", "1"])
                ref[k] = load_fit(w.durable(w.path("work", "alone", sp["posid"] + "_paramfits.csv")))
                if ref[k] is None:
                    v.add("not-fit", "%s, a good positioner, is not fit alone: %s %s" % (sp["posid"], st, val))
            out = lambda k: w.path("work", "out", pos[k]["posid"] + "_paramfits.csv")
            stale = b"ANALYSIS_DATE,POS_ID,FLAGS\n2001-01-01 00:00:00.000,M00000,0\n"
            if plan["old"]:
                for k in range(len(pos)):
                    w.put(out(k), stale)
            w.faults = faults
            w.pool_plan = dict(plan["pool"])
            n0 = len(w.stdout.getvalue())
            proc = w.new_process("batch")
            st, val = run_fit(w, proc, files, "out", opts + (["-np", str(plan["np"])] if plan["np"] else []))
            w.clear_faults()
            text = w.stdout.getvalue()[n0:]
            how = "fit_posparams -np %s" % plan["np"]
            if plan["np"] == 1:
                w.probe("serial")
            if st == "exc" and isinstance(val, PoolHang):
                v.add("hang", "%s never ends: %s" % (how, val))
            code = {"ok": 0, "exit": 0 if val in (None, 0) else 1, "exc": 1, "crash": 1}[st]
            w.state(plan["np"], sorted({p["defect"] or p["stuck"] or "" for p in pos}), sorted(w.fired), code)
            hits = [h for f in w.faults for h in f.get("hits", [])]
            npool = 0
            missing = []
            for k, sp in enumerate(pos):
                if v:
                    break
                b = w.durable(out(k))
                got = load_fit(b)
                name = sp["posid"]
                new = b is not None and b != stale and got is not None and len(got.get("POS_ID", [])) > 0
                touched = any(name in h for h in hits)
                if not new:
                    missing.append(name)
                if new and set(got["POS_ID"]) != {name} and not (touched and code):
                    v.add("wrong-positioner", "the file of %s has the results of %s" % (name, set(got["POS_ID"])))
                    break
                flags = 0
                for f in (got or {}).get("FLAGS", []) if new else []:
                    flags |= int(f) if isinstance(f, (int, float)) and f == f else 0
                fit = new and "LENGTH_R1_STATIC" in got
                if k in ref:                                   # a good positioner
                    ngood += 1
                    if new and not diff(got, ref[k]):
                        w.probe("good_ok")
                    elif touched and code:
                        w.probe("reported")
                    elif not new and not touched and (hits or code):
                        # faults on directories or the table reader may hit without the name of the positioner
                        if not hits:
                            v.add("good-lost", "%s: good positioner %s has no result in a batch with %s" % (
                                how, name, [p["defect"] or p["stuck"] for p in pos]))
                        elif not code:
                            v.add("silent-loss", "%s exits 0, no result for %s" % (how, name))
                        elif all(any(q["posid"] in h for q in pos) for h in hits):
                            v.add("good-lost", "%s: good positioner %s has no result, the errors were on %s" % (
                                how, name, [h[-30:] for h in hits]))
                    elif not new:
                        v.add("silent-loss", "%s exits 0, no complete result for the good positioner %s (faults on %s)" % (
                            how, name, [h[-30:] for h in hits]))
                    elif not code or not touched:
                        v.add("wrong-result", "%s: %s differs from its fit alone: %s" % (how, name, diff(got, ref[k])))
                    continue
                # a positioner which cannot be calibrated
                if touched and code:
                    w.probe("reported")
                    continue
                if fit and flags == 0 and sp["defect"] not in ("truncated", "garbage", "norehome", "twopetals"):
                    v.add("unflagged", "%s: %s (%s) is reported as a good fit" % (how, name, sp["defect"] or "stuck"))
                if not new and code == 0:
                    v.add("silent-loss", "%s exits 0, no result and no report for %s (%s)" % (how, name, sp["defect"] or "stuck"))
                if new and not fit:
                    w.probe("flagged")
                    if flags == 0:
                        v.add("unflagged", "%s: the file of %s (%s) has neither parameters nor flags" % (how, name, sp["defect"]))
                    want = {"few": AFTER_FILTER, "otherid": INVALID_TABLE, "stuck": FAILED | THETA_STUCK}.get(sp["defect"] or sp["stuck"] and "stuck")
                    if want and flags != want:
                        v.add("wrong-flag", "%s: %s (%s) has FLAGS %d, expected %d" % (how, name, sp["defect"] or "stuck", flags, want))
                if not new and code:
                    w.probe("reported")
                    if want_flag(sp) and not touched and not hits:
                        v.add("not-flagged", "%s: no file with FLAGS for %s (%s)" % (how, name, sp["defect"] or "stuck"))
            if not v and code and not missing and not hits:
                v.add("false-failure", "%s exits with an error, all results are there: %s" % (how, text[-200:]))
            if not v and code and missing:
                for m in missing:
                    if m not in text and m not in str(val):
                        v.add("unnamed-failure", "%s fails without naming %s: ...%s" % (how, m, text[-200:]))
            # once faults stop a new call completes all of the good positioners
            if not v and hits:
                w.run_script(w.new_process("again"), "fit_posparams", ["-i"] + files + ["-o", "out"] + opts + ["-np", "2"])
                for k in ref:
                    d = diff(load_fit(w.durable(out(k))), ref[k])
                    if d:
                        v.add("no-recovery", "%s is not fit once the faults stopped: %s" % (pos[k]["posid"], d))
        finally:
            w.uninstall()
        w.log("end", ngood, len(v.items))
        return outcome(w, v.items, nontrivial=bool(plan["pos"]), steps=len(plan["pos"]), evals=len(plan["pos"]))


def want_flag(sp):
    return sp["defect"] in ("few", "otherid") or sp["stuck"]


PROP = P()
