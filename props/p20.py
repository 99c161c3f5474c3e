"""P20  positioner calibration: the fit finds the true kinematics, or flags the positioner."""
import os
import random

import numpy as np

from dsim import fleet
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder
from props.p07 import load_fit

PAR = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y"]


class P(Prop):
    id = "P20"
    rule = ("one case = one simulated history of a positioner (rehomes, lost steps, gear calibration, stuck motor, wrong "
            "matches, disabled periods) fit by run_best_fits; non-trivial = parameters were compared with the truth")
    state_measure = "(number of sequences, drift, gear, outliers, window options, row order, outcome)"
    real = ["posparams.fithandler", "posparams.fitter", "posparams.flags", "circles", "ptl2fp", "pos2ptl"]
    stubs = ["positioner and FVC (frozen reference kinematics)", "clock"]
    assumptions = ["phi stays between 65 and 170 degrees (arm not folded), theta scale between 0.8 and 1",
                   "the window has at least 12 points with a theta arc at fixed phi and a range in phi"]
    must_probe = ["fitted", "drift", "outliers_rejected", "stuck_flagged", "windows", "gear", "rows_dropped", "unsorted", "selected", "gear_changes",
                  "fit_error_rejected"]
    tiers = {"quick": {"runs": 1200, "cap_s": 75, "run_timeout": 200, "min_s": 60},
             "thorough": {"runs": 12000, "cap_s": 1800, "run_timeout": 300, "min_s": 120}}

    def setup(self, base):
        install_finder()
        fleet.site(0, 0)
        for n in ("astropy.table", "scipy.optimize", "astropy.time"):
            __import__(n)

    def gen(self, seed, tier):
        r = random.Random("p20gen/%d" % seed)
        sp = fleet.spec(r, 0, many=0.08)
        mode = r.choice(["plain", "plain", "outlier", "stuck", "window", "window", "period", "notes", "drifts", "drifts", "dynamic"])
        opts = {"outlier_rejection": False}
        if mode == "outlier":
            sp["seqs"] = [{"kind": "arc", "n": r.randint(18, 24), "rehome": True, "eps": [0, 0]} for _ in range(r.randint(1, 2))]
            if r.random() < 0.5:      # the last sequence follows lost steps
                sp["seqs"].append({"kind": "arc", "n": r.randint(18, 24), "rehome": False, "eps": [round(r.uniform(-15, 15), 3), round(r.uniform(-4, 4), 3)]})
            sp["outliers"] = 1
            opts["outlier_rejection"] = True
        elif mode == "drifts":       # many sequences, most after lost steps, exposure numbers in any order
            n = r.randint(4, 7)
            first = r.randrange(n)
            step = r.choice([1, 1, -2, 3])
            sp["seqs"] = [{"kind": "arc" if k == first else r.choice(["arc", "grid"]), "n": r.randint(16, 22) if k == first else r.randint(8, 12),
                           "rehome": k == first, "eps": [round(r.uniform(-15, 15), 3), round(r.uniform(-4, 4), 3)], "step": step} for k in range(n)]
            if r.random() < 0.5:
                sp["outliers"] = 1
                opts["outlier_rejection"] = True
        elif mode == "dynamic":      # gear calibrations changed during the night
            sp["seqs"] = [{"kind": "arc", "n": r.randint(14, 20), "rehome": True, "eps": [0, 0]}]
            sp.update(disabled=0, idle=0, order="time")
        elif mode == "stuck":
            sp["stuck"] = "theta"
            sp["seqs"] = [{"kind": "arc", "n": r.randint(14, 20), "rehome": True, "eps": [0, 0]}]
        elif mode in ("window", "period"):
            for s in sp["seqs"]:
                s["rehome"] = True
                s["n"] = max(s["n"], 14)
                s["kind"] = "arc" if r.random() < 0.8 else "grid"
            sp["seqs"] = (sp["seqs"] * 3)[:r.randint(2, 4)]
            opts["data_window"] = r.choice([12, 14, 20, 25, 31])
            if mode == "period":
                opts["period_days"] = r.choice([1, 2])
                sp["days"] = r.choice([3.0, 5.0, 9.0])
        elif mode == "notes":
            for s in sp["seqs"]:
                s["note"] = r.choice(["arc calibration; use_desimeter=True", "arc calibration; use_desimeter=True", "blind move"])
            sp["seqs"][0].update(note="arc calibration; use_desimeter=True", rehome=True, kind="arc")
            sp["seqs"][0]["n"] = max(sp["seqs"][0]["n"], 14)
            sp["seqs"].append({"kind": "grid", "n": 12, "rehome": True, "eps": [0, 0], "note": r.choice(["blind move", "arc calibration"])})
            opts["log_note_selection"] = r.choice(["arc calibration & use_desimeter=True", "use_desimeter=True", "arc calibration",
                                                   "arc & use_desimeter=True | nothing"])
        return {"seed": seed, "mode": mode, "sp": sp, "opts": opts, "_lists": []}

    def run(self, plan, root, keep_log=0):
        v = Viol()
        w = new_world(root, plan, keep_log)
        w.install()
        sp, o = plan["sp"], plan["opts"]
        nfit = 0
        try:
            pos, rows = fleet.build(sp)
            if plan["mode"] == "dynamic":
                nfit = self.dynamic(w, v, plan, pos, rows)
                w.log("end", nfit, len(v.items))
                return outcome(w, v.items, nontrivial=nfit > 0, steps=len(rows), evals=nfit)
            f = w.put(w.path("work", "in", sp["posid"] + ".csv"), fleet.table_bytes(sp, rows))
            out = w.path("work", "out")
            os.makedirs(out)

            def body():
                from desimeter.posparams import fithandler
                return fithandler.run_best_fits(posid=sp["posid"], path=f, period_days=o.get("period_days", 1000000),
                                                data_window=o.get("data_window", 1000000), savedir=out, static_quantile=0.05,
                                                printf=lambda *a, **k: None, log_note_selection=o.get("log_note_selection"),
                                                outlier_rejection=o["outlier_rejection"])
            st, val = w.call(w.new_process("fit"), body)
            got = load_fit(w.durable(os.path.join(out, sp["posid"] + "_paramfits.csv")))
            if st != "ok" or got is None:
                v.add("fit-failed", "%s %s" % (st, read_exc(val) if st == "exc" else val))
            else:
                nfit = self.judge(w, v, plan, pos, rows, got, val)
        finally:
            w.uninstall()
        w.log("end", nfit, len(v.items))
        return outcome(w, v.items, nontrivial=nfit > 0, steps=len(rows), evals=nfit)

    @staticmethod
    def dynamic(w, v, plan, pos, rows):
        """Motors with a constant output ratio, whose gear calibration was changed from move to move."""
        from dref import ptl2fp, pos2ptl
        r = random.Random("dynamic/%d" % plan["seed"])
        sp = plan["sp"]
        ratio = [r.choice([1.0, 0.9, 0.8]), r.choice([1.0, 0.9, 0.8])]
        # the angles reached, where moves of phi and theta are below half a turn
        tp = [(r.uniform(-40, 40), r.uniform(90, 140))]
        for _ in range(r.randint(12, 24)):
            t, p = tp[-1]
            tp.append((max(-160, min(160, t + r.choice([-1, 1]) * r.uniform(5, 60))), max(80, min(150, p + r.uniform(-20, 20)))))
        tp = np.array(tp)
        gt = [r.choice([1.0, 0.9, 0.85, 0.7]) for _ in tp]
        gp = [r.choice([1.0, 0.9, 0.85, 0.7]) for _ in tp]
        dt, dp = np.diff(tp[:, 0]) * np.array(gt[1:]) / ratio[0], np.diff(tp[:, 1]) * np.array(gp[1:]) / ratio[1]
        ti, pi = np.append(tp[0, 0], tp[0, 0] + np.cumsum(dt)), np.append(tp[0, 1], tp[0, 1] + np.cumsum(dp))
        x, y = pos2ptl.int2ptl(tp[:, 0], tp[:, 1], pos.r1, pos.r2, pos.ot, pos.op, pos.ox, pos.oy)
        nom = {"LENGTH_R1": pos.r1, "LENGTH_R2": pos.r2, "OFFSET_T": pos.ot, "OFFSET_P": pos.op, "OFFSET_X": pos.ox, "OFFSET_Y": pos.oy,
               "SCALE_T": 0.95, "SCALE_P": 0.95}
        keep = dict(nom)

        def body():
            from desimeter.posparams import fitter
            return fitter.fit_params(ti.tolist(), pi.tolist(), list(map(float, x)), list(map(float, y)), gt, gp, [1] * len(tp), [0] * len(tp),
                                     mode="dynamic", nominals=nom)
        st, val = w.call(w.new_process("fit"), body)
        w.state("dynamic", ratio, len(tp))
        if st != "ok":
            v.add("fit-failed", "dynamic fit: %s %s" % (st, read_exc(val) if st == "exc" else val))
            return 0
        best, cov, rms, n = val
        w.log("dynamic", [round(float(best.get(k, -1)), 3) for k in ("SCALE_T", "SCALE_P")], n)
        for k, g in (("SCALE_T", ratio[0]), ("SCALE_P", ratio[1])):
            if abs(best.get(k, -9) - g) > 0.01:
                v.add("wrong-scale", "%s is %s, the output ratio is %.2f, with gear calibrations %s" % (k, best.get(k), g, sorted(set(gt))))
        if not v and rms > 0.01:
            v.add("bad-dynamic", "rms of residuals %.4f" % rms)
        if nom != keep:
            v.add("argument-modified", "fit_params changes the nominals of the caller")
        w.probe("gear_changes")
        return 1

    @staticmethod
    def judge(w, v, plan, pos, rows, got, msg):
        import dateutil.parser
        sp, o = plan["sp"], plan["opts"]
        good = [r for r in rows if not r["_drop"]]
        if len(good) < len(rows):
            w.probe("rows_dropped")
        if sp["order"] != "time":
            w.probe("unsorted")
        if o.get("log_note_selection"):
            keep = lambda note: any(all(k.strip() in note for k in s.split("&") if k.strip()) for s in o["log_note_selection"].split("|"))
            n = len(good)
            good = [r for r in good if keep(r["LOG_NOTE"])]
            if len(good) < n:
                w.probe("selected")
        nseq = len({r["EXPOSURE_ID"] for r in good})
        flags = [int(x) for x in got["FLAGS"]]
        w.state(plan["mode"], nseq, sp["gear"], sp["outliers"], o.get("data_window"), o.get("period_days"), sp["order"], flags[:1])
        if sp["stuck"]:
            if "LENGTH_R1_STATIC" in got or any(x & 5 != 5 for x in flags):
                v.add("stuck-not-flagged", "theta does not move, FLAGS are %s" % flags)
            else:
                w.probe("stuck_flagged")
            return 1
        few = min(len(good), sum(r["RECENT_REHOME"] for r in good)) < 10
        if few:
            if "LENGTH_R1_STATIC" in got or any(x != 16 for x in flags):
                v.add("few-not-flagged", "less than ten points, FLAGS are %s" % flags)
            return 0
        if any(flags) or "LENGTH_R1_STATIC" not in got:
            v.add("good-flagged", "a good positioner has FLAGS %s: %s" % (flags, msg))
            return 0
        good.sort(key=lambda r: r["DATE"])
        sec = np.array([dateutil.parser.parse(r["DATE"]).timestamp() for r in good])
        nrow = len(flags)
        if any(not all(isinstance(x, (int, float)) and x == x for x in got[k + "_STATIC"]) for k in PAR):
            v.add("not-finite", "parameters are missing or not finite")
            return 0
        # windows
        dw = o.get("data_window", 10 ** 6)
        ends = list(got["DATA_END_DATE_SEC"])
        if ends != sorted(ends):
            v.add("windows-order", "the windows are not sorted")
        full = np.zeros(len(good), bool)
        for k in range(nrow):
            s, e = got["DATA_START_DATE_SEC"][k], ends[k]
            inside = (sec >= s - 1e-3) & (sec <= e + 1e-3)
            # rows recorded again without a move may stand for the move itself, one second later
            n = int(inside.sum())
            full |= inside
            slack = 1 if sp["idle"] else 0
            if abs(n - got["NUM_POINTS"][k]) > slack:
                v.add("num-points", "window %d has NUM_POINTS %s, the data have %d points in it" % (k, got["NUM_POINTS"][k], n))
            if s < sec[0] - 1.5 or e > sec[-1] + 1.5 or s > e:
                v.add("window-range", "window %d is outside of the data" % k)
            if n + slack < min(dw, len(good)) and s > sec[0] + 1.5:
                v.add("window-small", "window %d has %d points, %d requested" % (k, n, dw))
            if plan["mode"] == "window" and len(good) >= dw and abs(n - dw) > slack:
                v.add("window-size", "window %d has %d points, %d requested" % (k, n, dw))
        if plan["mode"] != "period" and not full.all() and not sp["idle"]:
            v.add("window-gap", "%d points are in no window" % (~full).sum())
        if nrow > 1:
            w.probe("windows")
        bad = np.array([r["_bad"] for r in good])
        x = np.array([r["X_FP"] for r in good])
        y = np.array([r["Y_FP"] for r in good])
        t = np.array([r["POS_T"] for r in good])
        p = np.array([r["POS_P"] for r in good])
        reh = np.array([r["RECENT_REHOME"] for r in good])
        exps = sorted({r["EXPOSURE_ID"] for r in good})
        seq = np.array([exps.index(r["EXPOSURE_ID"]) for r in good])
        from dref import ptl2fp, pos2ptl
        xyz = ptl2fp.fp2ptl(sp["petal"], x, y)
        xf, yf = pos2ptl.ptl2flat(np.array(xyz[0]), np.array(xyz[1]))
        gear = [1.0, 1.0] if sp["nogear"] else sp["gear"]
        tol = 4 * sp["noise"] + 0.003
        nfit = 0
        for k in range(nrow):
            s, e = got["DATA_START_DATE_SEC"][k], ends[k]
            m = (sec >= s - 1e-3) & (sec <= e + 1e-3)
            q = {a: float(got[a + "_STATIC"][k]) for a in PAR}
            dt, dp = np.full(m.sum(), q["OFFSET_T"]), np.full(m.sum(), q["OFFSET_P"])
            for j in np.unique(seq[m]):
                if not reh[seq == j].all():
                    w.probe("drift")
                    a, b = "EPSILON_T_%d_STATIC" % j, "EPSILON_P_%d_STATIC" % j
                    if a not in got or b not in got:
                        v.add("no-epsilon", "no %s for a sequence without rehome" % a)
                        return nfit
                    dt[seq[m] == j] += float(got[a][k])
                    dp[seq[m] == j] += float(got[b][k])
            xm, ym = pos2ptl.int2loc(t[m], p[m], q["LENGTH_R1"], q["LENGTH_R2"], dt, dp)
            d = np.hypot(xm + q["OFFSET_X"] - xf[m], ym + q["OFFSET_Y"] - yf[m])
            ok = ~bad[m]
            nin = int(got["NUM_POINTS_IN_FIT_STATIC"][k])
            # 1. the reported residual is that of the reported parameters
            n = int(m.sum())
            w.log("window", n, nin, [round(q[a], 2) for a in PAR])
            if nin in (n, n - int(bad[m].sum())) and not sp["idle"]:
                if nin < n:
                    w.probe("fit_error_rejected")
                rms = float(np.sqrt(np.mean(d[ok | (nin == n)] ** 2)))
                if abs(rms - got["FIT_ERROR_STATIC"][k]) > 2e-4 + 0.02 * rms:
                    v.add("wrong-fit-error", "FIT_ERROR_STATIC %.5f, the parameters give %.5f" % (got["FIT_ERROR_STATIC"][k], rms))
            # 2. points used
            if not o["outlier_rejection"]:
                if abs(nin - n) > (1 if sp["idle"] else 0):
                    v.add("points-in-fit", "%d points in the fit of %d without outlier rejection" % (nin, n))
            else:
                nb = int(bad[m].sum())
                if nin > n - nb + (1 if sp["idle"] else 0):
                    v.add("outlier-kept", "%d points in the fit, %d of the %d points are wrong" % (nin, nb, n))
                else:
                    w.probe("outliers_rejected")
            # 3. the truth: positions over the range of the moves, and the parameters themselves
            arcs = [(int((p[m] == a).sum()), float(np.ptp(t[m][p[m] == a]))) for a in np.unique(p[m])]
            arcs = [a for a in arcs if a[0] > 2]
            if n < 12 or np.ptp(p[m]) < 30 or not arcs or max(arcs)[0] < 6 or min(a[1] for a in arcs) < 100:
                continue
            # a window which ends within a calibration sequence may constrain the arms too little
            if any(m[seq == j].sum() != (seq == j).sum() for j in np.unique(seq[m])):
                w.probe("partial_window")
                continue
            nfit += 1
            w.probe("fitted")
            if d[ok].size and np.sqrt(np.mean(d[ok] ** 2)) > 1.3 * sp["noise"] + 0.002:
                v.add("bad-residual", "rms of residuals %.4f mm for a noise of %.4f" % (np.sqrt(np.mean(d[ok] ** 2)), sp["noise"]))
            tr = {"LENGTH_R1": pos.r1, "LENGTH_R2": pos.r2, "OFFSET_T": pos.ot, "OFFSET_P": pos.op, "OFFSET_X": pos.ox, "OFFSET_Y": pos.oy}
            for a in PAR:
                err = q[a] - tr[a]
                if a == "OFFSET_T":
                    err = (err + 180) % 360 - 180
                    if not -180 <= q[a] <= 180.0001:
                        v.add("offset-range", "OFFSET_T is %.3f" % q[a])
                sig = got.get("ERR." + a + "_STATIC", [0] * nrow)[k]
                if not (isinstance(sig, (int, float)) and sig >= 0):
                    v.add("bad-error", "ERR.%s is %s" % (a, sig))
                    sig = 0
                lim = (1.0 if "OFFSET_T" == a or "OFFSET_P" == a else 0.03) * (0.15 + sp["noise"] / 0.004)
                if abs(err) > lim:
                    v.add("wrong-parameter", "%s is off by %.4f (%s)" % (a, err, plan["mode"]))
            tt, pp = np.meshgrid(np.linspace(t[m].min(), t[m].max(), 7), np.linspace(p[m].min(), p[m].max(), 4))
            tt, pp = tt.ravel(), pp.ravel()
            xa, ya = pos2ptl.int2loc(tt, pp, q["LENGTH_R1"], q["LENGTH_R2"], np.full(tt.size, q["OFFSET_T"]), np.full(tt.size, q["OFFSET_P"]))
            xb, yb = pos2ptl.int2loc(tt, pp, pos.r1, pos.r2, np.full(tt.size, pos.ot), np.full(tt.size, pos.op))
            dd = np.hypot(xa + q["OFFSET_X"] - xb - pos.ox, ya + q["OFFSET_Y"] - yb - pos.oy)
            if dd.max() > 2 * tol:
                v.add("wrong-model", "the calibration misplaces the fibre by up to %.4f mm (%s)" % (dd.max(), plan["mode"]))
            for a, g in (("SCALE_T", gear[0]), ("SCALE_P", gear[1])):
                sc = float(got[a + "_DYNAMIC"][k])
                if sp["outliers"] == 0 and abs(sc - g) > 0.02:
                    v.add("wrong-scale", "%s is %.4f, true value %.4f" % (a, sc, g))
                if g != 1:
                    w.probe("gear")
            if sp["outliers"] == 0 and got["FIT_ERROR_DYNAMIC"][k] > 4 * sp["noise"] + 0.01:
                v.add("bad-dynamic", "rms of dynamic residuals %.4f mm" % got["FIT_ERROR_DYNAMIC"][k])
        return nfit


PROP = P()
