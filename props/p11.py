"""P11  FVC pipeline: right identity and right position while hardware fails."""
import json
import os
import random

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, table_dict, read_exc, install_finder
import dref.fieldmodel as rfm


class P(Prop):
    id = "P11"
    level = "exploration"
    rule = ("one case = a night: 1-5 exposures of a simulated focal plane through the real "
            "desi_fvc_proc, hardware faults accumulating between them; non-trivial = at least one "
            "exposure with four or more live fiducials was processed")
    state_measure = "(instrument, input kind, options, live fiducials, fault kinds active)"
    real = ["processfvc", "detectspots", "findfiducials", "fvc2fp", "zhaoburge", "match", "simplecorr",
            "fieldmodel.fp2radec", "io", "bin/desi_fvc_proc"]
    stubs = ["focal plane, fibre view camera and optics (frozen reference transforms)"]
    assumptions = ["fibres are within 4.3 mm of the positioner centre unless expected positions are given",
                   "no stray light within 7 mm of a positioner or 3 mm of a fiducial",
                   "camera within 2e-3 (scale, rotation) of the input transform"]
    must_probe = ["exposure_ok", "too_few_fiducials", "dead_pinhole", "dead_fibre", "ghost", "other_camera",
                  "full", "expected", "field_model", "fits", "relabelled_list"]
    tiers = {"quick": {"runs": 200, "cap_s": 75, "run_timeout": 150, "min_s": 60},
             "thorough": {"runs": 6000, "cap_s": 2400, "run_timeout": 200, "min_s": 180}}

    def setup(self, base):
        install_finder()
        self.base = base
        self.inst = {"tiny%d" % k: I.tiny(base, k) for k in range(3)}
        self.inst["mini"] = I.MiniInstrument(base)
        self.inst["full"] = I.FullInstrument(base)

    def gen(self, seed, tier):
        r = random.Random("p11gen/%d" % seed)
        inst = r.choice(["tiny0", "tiny1", "tiny2", "mini", "mini", "mini", "full", "full"])
        n = r.randint(1, 2) if inst == "full" else r.randint(2, 4)
        exps = []
        for k in range(n):
            e = {"kind": "csv" if inst == "full" or r.random() < 0.6 else "fits",
                 "cam": r.choice([0, 0, 1]) if r.random() < 0.7 else 0,
                 "opts": [], "faults": [], "seed": r.getrandbits(30), "cli": r.random() < 0.3,
                 "noise": r.choice([0, 0, 0.003]),
                 "order": "shuffle"}
            if r.random() < 0.45:
                e["expected"] = r.choice(["xy", "qs", "xyexp", "metro", "noloc"])
                e["rmax"] = r.choice([4.3, 6.0])
            else:
                e["rmax"] = r.choice([0.5, 3.0, 4.3])
            if e["kind"] == "csv" and r.random() < 0.3:
                e["stale"] = r.choice(["labels", "labels", "all"])
            if r.random() < 0.4:
                e["transform"] = True
            if r.random() < 0.35:
                e["fm"] = True
            if inst == "full" and r.random() < 0.4 and e["cam"] == 0:
                e["zb"] = True
            elif r.random() < 0.2 and e["cam"] == 0:
                e["fixed"] = r.choice(["scale", "rotation", "both"])
            for _ in range(r.choice([0, 1, 2, 3])):
                e["faults"].append(r.choice(["dead_fibre", "dead_pinhole", "dead_fiducial", "ghost",
                                             "drift", "dead_pinhole", "dead_fibre"]))
            if r.random() < 0.12 and inst != "full":
                e["faults"] += ["kill_fiducials"]
            exps.append(e)
        return {"seed": seed, "config": inst, "inst": inst, "exps": exps, "one_proc": r.random() < 0.7,
                "_lists": ["exps"]}

    # ------------------------------------------------------------------
    def run(self, plan, root, keep_log=0):
        v = Viol()
        inst = self.inst[plan["inst"]]
        fp = inst.fp
        w = new_world(root, plan, keep_log)
        w.use_data(inst.datadir, inside=False)
        w.probe(plan["inst"])
        state = {"fib": set(), "pinh": set(), "fid": set(), "ghost": [], "drift": 0}
        drift = np.zeros(4)
        ok = 0
        w.install()
        try:
            proc = w.new_process("daq")
            for ne, e in enumerate(plan["exps"]):
                if v:
                    break
                rng = random.Random("exp/%d" % e["seed"])
                for f in e["faults"]:
                    w.count_fault(f)
                    self._hw_fault(f, state, fp, rng, drift)
                # ---- truth of this exposure
                tx = inst.tx(None)
                if e["cam"]:
                    tx.offset_x += 0.035
                    tx.offset_y -= 0.02
                    tx.rotation += 0.025
                    w.probe("other_camera")
                    intx = w.put(w.path("work", "cam%d.json" % e["cam"]), tx.tojson())
                else:
                    intx = None
                if not e.get("fixed"):
                    tx.scale *= 1 + drift[0]
                    tx.rotation += drift[1]
                    tx.offset_x += drift[2]
                    tx.offset_y += drift[3]
                if e.get("fixed") == "scale":
                    tx.rotation += drift[1]
                if e.get("fixed") == "rotation":
                    tx.scale *= 1 + drift[0]
                if e.get("zb"):
                    tx.zbcoeffs = tx.zbcoeffs + np.array([rng.uniform(-1e-4, 1e-4) for _ in tx.zbcoeffs])
                ex = I.Exposure(inst, rng, rmax=e["rmax"], tx=tx)
                alive = np.ones(ex.n, bool)
                for i in range(ex.n):
                    if ex.pin[i] == 0:
                        alive[i] = int(ex.loc[i]) not in state["fib"]
                    else:
                        alive[i] = (int(ex.loc[i]) not in state["fid"] and
                                    (int(ex.loc[i]), int(ex.pin[i])) not in state["pinh"])
                full_truth = ex
                ex = ex.select(alive)
                complete = []
                for L in fp.fidlocs:
                    tot = int(np.sum((full_truth.loc == L) & (full_truth.pin > 0)))
                    if int(np.sum((ex.loc == L) & (ex.pin > 0))) == tot and tot == 4:
                        complete.append(int(L))
                gh = []
                for gx, gy in state["ghost"]:
                    px, py = tx.fp2fvc(np.array([gx]), np.array([gy]))
                    gh.append((float(px[0]), float(py[0])))
                # ---- input file
                base = w.path("work", "e%02d" % ne)
                if e["kind"] == "fits":
                    w.probe("fits")
                    from copy import copy
                    im = copy(ex)
                    im.xpix = np.concatenate([ex.xpix, [g[0] for g in gh]])
                    im.ypix = np.concatenate([ex.ypix, [g[1] for g in gh]])
                    im.counts = np.concatenate([ex.counts, [40000.0] * len(gh)])
                    inside = [k for k in range(len(im.xpix)) if 6 < im.xpix[k] < inst.nx - 7 and
                              6 < im.ypix[k] < inst.ny - 7]
                    if len(inside) < len(im.xpix):      # the other camera may cut the field
                        e = dict(e, kind="csv")
                    else:
                        a = im.image(np.random.RandomState(e["seed"]))
                        infile = w.put(base + ".fits", I.fits_bytes([("F0000", a, {})]))
                if e["kind"] == "csv":
                    txt, _ = ex.csv(rng, noise=e["noise"],
                                    extra=[(g[0], g[1], 40000.0) for g in gh])
                    if e.get("stale"):
                        # the list carries the columns of an earlier, wrong, identification
                        w.probe("relabelled_list")
                        txt = self._stale(txt, e["stale"], fp, rng)
                    infile = w.put(base + ".csv", txt)
                outfile = base + "_out.csv"
                argv = ["-i", infile, "-o", outfile]
                if intx:
                    argv += ["--input-transform", intx]
                if e.get("zb"):
                    argv += ["--zbfit"]
                if e.get("fixed") in ("scale", "both"):
                    argv += ["--fixed-scale"]
                if e.get("fixed") in ("rotation", "both"):
                    argv += ["--fixed-rotation"]
                outtx = None
                if e.get("transform"):
                    outtx = base + "_tx.json"
                    argv += ["--output-transform", outtx]
                expected = None
                if e.get("expected"):
                    w.probe("expected")
                    expected = self._expected(w, base, e, fp, full_truth, rng, argv)
                fm = None
                if e.get("fm"):
                    w.probe("field_model")
                    fm = self._field_model(rng)
                    argv += ["--field-model", w.put(base + "_fm.json", fm.tojson())]
                # ---- run the real thing
                p = proc if plan["one_proc"] else w.new_process("cli%d" % ne)
                if e["cli"]:
                    st, val = w.run_script(p, "desi_fvc_proc", argv)
                    if st == "exit":
                        st, val = "ok", (0 if val is None else val)
                else:
                    def body():
                        from desimeter.processfvc import get_parser, fvc_proc
                        from desimeter.log import get_logger
                        return fvc_proc(get_parser().parse_args(argv), get_logger())
                    st, val = w.call(p, body)
                w.log("exp", ne, st, val if st == "ok" else type(val).__name__)
                w.state(plan["inst"], e["kind"], sorted(k for k in e if k in ("zb", "fixed", "fm", "expected", "transform")),
                        len(complete), sorted(w.fired))
                what = "exposure %d (%s, %s)" % (ne, plan["inst"], " ".join(argv[4:])[:200])
                written = w.durable(outfile)
                if len(complete) < 3:
                    w.probe("too_few_fiducials")
                    if st == "ok" and val == 0:
                        # allowed only if it still got everything right
                        err = self._judge(w, written, ex, e, fp, gh, full_truth, expected, complete, fm, None, None)
                        if err:
                            v.add("wrong-without-fiducials", "%s with %d complete fiducials: %s" % (
                                what, len(complete), err[1]))
                    continue
                if st != "ok" or val != 0:
                    v.add("pipeline-failed", "%s: %s %s" % (what, st, read_exc(val) if st == "exc" else val))
                    continue
                w.probe("exposure_ok")
                ok += 1
                err = self._judge(w, written, ex, e, fp, gh, full_truth, expected, complete, fm, outtx, tx)
                if err:
                    v.add(err[0], "%s: %s" % (what, err[1]))
        finally:
            w.uninstall()
        return outcome(w, v.items, nontrivial=ok > 0)

    # ------------------------------------------------------------------
    @staticmethod
    def _hw_fault(f, state, fp, rng, drift):
        if f == "dead_fibre":
            for L in rng.sample([int(x) for x in fp.loc[fp.ipos]], min(3, len(fp.ipos))):
                state["fib"].add(L)
        elif f == "dead_pinhole":
            i = rng.choice([int(k) for k in fp.ifid])
            state["pinh"].add((int(fp.loc[i]), int(fp.pin[i])))
        elif f == "dead_fiducial":
            state["fid"].add(int(rng.choice([int(x) for x in fp.fidlocs])))
        elif f == "kill_fiducials":
            n = rng.randint(0, 2)
            keep = rng.sample([int(x) for x in fp.fidlocs], n)
            state["fid"] = {int(x) for x in fp.fidlocs} - set(keep)
        elif f == "drift":
            drift += np.array([rng.uniform(-7e-4, 7e-4), rng.uniform(-7e-4, 7e-4),
                               rng.uniform(-4e-4, 4e-4), rng.uniform(-4e-4, 4e-4)])
            np.clip(drift, -2e-3, 2e-3, out=drift)
        elif f == "ghost":
            # stray spots, away from every positioner and fiducial
            for _ in range(2):
                for _try in range(40):
                    i = rng.choice([int(k) for k in fp.ipos])
                    a, rr = rng.uniform(0, 6.28), rng.uniform(7.5, 12)
                    x, y = fp.x[i] + rr * np.cos(a), fp.y[i] + rr * np.sin(a)
                    if np.min(np.hypot(fp.x[fp.inull] - x, fp.y[fp.inull] - y)) < 7.3:
                        continue
                    if np.min(np.hypot(fp.x[fp.ifid] - x, fp.y[fp.ifid] - y)) < 4:
                        continue
                    if any(np.hypot(gx - x, gy - y) < 3 for gx, gy in state["ghost"]):
                        continue
                    state["ghost"].append((float(x), float(y)))
                    break

    @staticmethod
    def _stale(txt, kind, fp, rng):
        ln = txt.splitlines()
        sel = [int(k) for k in fp.inull]
        out = [ln[0] + ",LOCATION,PETAL_LOC,DEVICE_LOC,PINHOLE_ID" +
               (",X_FP,Y_FP,X_FP_METRO,Y_FP_METRO" if kind == "all" else "")]
        for row in ln[1:]:
            i = rng.choice(sel)
            row += ",%d,%d,%d,%d" % (fp.loc[i], fp.pet[i], fp.dev[i], fp.pin[i])
            if kind == "all":
                row += ",%.6f,%.6f,%.6f,%.6f" % (fp.x[i], fp.y[i], fp.x[i], fp.y[i])
            out.append(row)
        return "\n".join(out) + "\n"

    @staticmethod
    def _expected(w, base, e, fp, truth, rng, argv):
        """Write an expected-positions file; returns {LOCATION: (x, y)}."""
        exp = {}
        rows = []
        tr = {int(L): k for k, L in enumerate(truth.loc) if truth.pin[k] == 0}
        order = [int(i) for i in fp.ipos]
        rng.shuffle(order)
        kind = e["expected"]
        if kind == "qs":
            from dref.xy2qs import xy2qs
        hdr = {"xy": "PETAL_LOC,DEVICE_LOC,LOCATION,DEVICE_ID,X_FP,Y_FP",
               "xyexp": "PETAL_LOC,DEVICE_LOC,LOCATION,DEVICE_ID,X_FP_EXP,Y_FP_EXP",
               "noloc": "PETAL_LOC,DEVICE_LOC,X_FP,Y_FP",
               "qs": "PETAL_LOC,DEVICE_LOC,DEVICE_ID,EXP_Q_0,EXP_S_0",
               "metro": "PETAL_LOC,DEVICE_LOC,LOCATION,PINHOLE_ID,DEVICE_ID,DEVICE_TYPE,X_FP,Y_FP"}[kind]
        rows.append(hdr)
        for i in order:
            L = int(fp.loc[i])
            if L in tr:
                a, d = rng.uniform(0, 6.28), rng.uniform(0, 0.25)
                x, y = truth.xfp[tr[L]] + d * np.cos(a), truth.yfp[tr[L]] + d * np.sin(a)
            else:
                continue
            exp[L] = (float(x), float(y))
            pl, dl, did = fp.pet[i], fp.dev[i], fp.devid[i]
            if kind in ("xy", "xyexp"):
                rows.append("%d,%d,%d,%s,%.9f,%.9f" % (pl, dl, L, did, x, y))
            elif kind == "noloc":
                rows.append("%d,%d,%.9f,%.9f" % (pl, dl, x, y))
            elif kind == "qs":
                q, s = xy2qs(x, y)
                rows.append("%d,%d,%s,%.9f,%.9f" % (pl, dl, did, q, s))
            else:
                rows.append("%d,%d,%d,0,%s,POS,%.9f,%.9f" % (pl, dl, L, did, x, y))
        if kind == "metro":
            for i in fp.ifid:
                rows.append("%d,%d,%d,%d,%s,%s,%.9f,%.9f" % (fp.pet[i], fp.dev[i], fp.loc[i], fp.pin[i],
                                                            fp.devid[i], fp.dt[i], fp.x[i], fp.y[i]))
        argv += ["--expected-positions", w.put(base + "_exp.csv", "\n".join(rows) + "\n")]
        return exp

    @staticmethod
    def _field_model(rng):
        fm = rfm.FieldModel()
        fm.ra, fm.dec = rng.uniform(5, 355), rng.uniform(-15, 75)
        fm.mjd = 59000 + rng.uniform(0, 900)
        fm.lst = (fm.ra + rng.uniform(-40, 40)) % 360
        fm.hexrot_deg = rng.uniform(-0.1, 0.1)
        fm.adc1, fm.adc2 = rng.uniform(0, 360), rng.uniform(0, 360)
        fm.sxx, fm.syy, fm.sxy = 1 + rng.uniform(-1e-3, 1e-3), 1 + rng.uniform(-1e-3, 1e-3), rng.uniform(-3e-4, 3e-4)
        fm.fieldrot_zp_deg = rng.uniform(-0.1, 0.1)
        return fm

    def _judge(self, w, written, ex, e, fp, gh, truth, expected, complete, fm, outtx, tx):
        from scipy.spatial import cKDTree
        from astropy.table import Table
        if written is None:
            return ("no-output", "success reported but no output file")
        try:
            t = Table.read(written.decode(), format="csv")
        except Exception as x:
            return ("bad-output", "output cannot be read: %s" % x)
        need = ["XPIX", "YPIX", "LOCATION", "PETAL_LOC", "DEVICE_LOC", "PINHOLE_ID", "X_FP", "Y_FP",
                "X_FP_METRO", "Y_FP_METRO", "X_FP_EXP", "Y_FP_EXP"]
        miss = [c for c in need if c not in t.colnames]
        if miss:
            return ("missing-columns", str(miss))
        n = len(t)
        g = np.array(gh).reshape(-1, 2)
        ax = np.concatenate([ex.xpix, g[:, 0]])
        ay = np.concatenate([ex.ypix, g[:, 1]])
        if n != len(ax):
            return ("spot-count", "%d rows for %d spots on the detector" % (n, len(ax)))
        px, py = np.array(t["XPIX"], float), np.array(t["YPIX"], float)
        d, i = cKDTree(np.c_[ax, ay]).query(np.c_[px, py])
        tolp = 0.06
        if not np.all(d < tolp) or len(set(i.tolist())) != n:
            return ("centroid", "spot %.3f px away from its true position" % d.max())
        loc = np.array(t["LOCATION"], int)
        pin = np.array(t["PINHOLE_ID"], int)
        ghost = i >= ex.n
        ii = np.where(ghost, 0, i)
        tl, tp = np.where(ghost, -1, ex.loc[ii]), np.where(ghost, 0, ex.pin[ii])
        isfid = tp > 0
        # the pinhole pattern is matched in order of XPIX: patterns with two pinholes at
        # (almost) the same XPIX may stay unmatched
        ambig = []
        for L in complete:
            if np.min(np.diff(np.sort(ex.xpix[(ex.loc == L) & (ex.pin > 0)]))) < 0.25:
                ambig.append(L)
        incomplete = isfid & (~np.isin(tl, complete) | np.isin(tl, ambig))
        # a pinhole of a broken fiducial may be taken for the fibre of a dead positioner
        dead = {int(L) for L in fp.loc[fp.ipos]} - {int(L) for L in ex.loc[ex.pin == 0]}
        bad = (~ghost) & (loc != tl) & ~(incomplete & ((loc < 0) | np.isin(loc, sorted(dead))))
        for k in np.where(ghost & (loc >= 0))[0]:
            near = False
            if int(loc[k]) in dead and expected is not None and int(loc[k]) in expected:
                gk = tx.fvc2fp(ax[i[k]:i[k] + 1], ay[i[k]:i[k] + 1]) if tx is not None else (0, 0)
                q = expected[int(loc[k])]
                near = tx is None or np.hypot(gk[0][0] - q[0], gk[1][0] - q[1]) < 7.05
            if not near:
                return ("ghost-identified", "a stray spot got LOCATION %d" % loc[k])
        stolen = (~ghost) & incomplete & (loc != tl) & (loc >= 0)
        exptr = None
        if expected is not None:
            bad &= ~((tp == 0) & np.array([int(L) not in expected for L in tl]))
        if np.any(bad):
            k = int(np.where(bad)[0][0])
            return ("wrong-identity", "spot of LOCATION %d pinhole %d is labelled %d/%d (%d wrong)" % (
                tl[k], tp[k], loc[k], pin[k], int(bad.sum())))
        badp = (loc >= 0) & (pin != tp) & ~(incomplete & ((pin == 0) | np.isin(tl, ambig)))
        if np.any(badp):
            k = int(np.where(badp)[0][0])
            return ("wrong-pinhole", "LOCATION %d pinhole %d is labelled %d" % (tl[k], tp[k], pin[k]))
        m = (loc >= 0) & ~stolen & ~ghost
        if np.any(np.array(t["PETAL_LOC"], int)[m] * 1000 + np.array(t["DEVICE_LOC"], int)[m] != loc[m]):
            return ("petal-device", "PETAL_LOC, DEVICE_LOC disagree with LOCATION")
        # positions: every spot, matched or not
        tx_x = np.concatenate([ex.xfp, [0.0] * len(gh)])[i]
        tx_y = np.concatenate([ex.yfp, [0.0] * len(gh)])[i]
        if len(gh) and tx is not None:
            gx, gy = tx.fvc2fp(g[:, 0], g[:, 1])
            tx_x[ghost] = gx[i[ghost] - ex.n]
            tx_y[ghost] = gy[i[ghost] - ex.n]
        dr = np.hypot(np.array(t["X_FP"], float) - tx_x, np.array(t["Y_FP"], float) - tx_y)
        if tx is None:
            dr = dr[~ghost]
        # the minimiser stops early on a small off-axis patch (all parameters degenerate)
        tol = 0.05 if len(fp.fidlocs) <= 4 else 0.012
        w.probe("xfp_um_max_%d" % int(min(50, 1000 * dr.max()) // 2 * 2))
        if not np.all(dr < tol):
            return ("wrong-position", "X_FP,Y_FP is %.4f mm from the truth" % np.nanmax(dr))
        # metrology and expected positions
        mx, my = np.array(t["X_FP_METRO"], float), np.array(t["Y_FP_METRO"], float)
        lab = m & (pin > 0)
        if np.any(np.hypot(mx[lab] - ex.xfp[ii[lab]], my[lab] - ex.yfp[ii[lab]]) > 1e-6):
            return ("metro-columns", "X_FP_METRO of a fiducial is not its metrology")
        sel = m & (tp == 0)
        xe, ye = np.array(t["X_FP_EXP"], float), np.array(t["Y_FP_EXP"], float)
        if expected is not None:
            want = np.array([expected[int(L)] for L in loc[sel]]).reshape(-1, 2)
        else:
            c = {int(fp.loc[k]): (fp.x[k], fp.y[k]) for k in fp.ipos}
            want = np.array([c[int(L)] for L in loc[sel]]).reshape(-1, 2)
        if len(want) and np.any(np.hypot(xe[sel] - want[:, 0], ye[sel] - want[:, 1]) > (2e-3 if e.get("expected") == "qs" else 2e-4)):
            return ("expected-columns", "X_FP_EXP,Y_FP_EXP is %.5f mm from the expected position" % np.max(np.hypot(xe[sel] - want[:, 0], ye[sel] - want[:, 1])))
        if "DEVICE_ID" in t.colnames and np.any(sel):
            did = {int(fp.loc[k]): fp.devid[k] for k in fp.ipos}
            got = [str(x).strip() for x in t["DEVICE_ID"][sel]]
            for L, x in zip(loc[sel], got):
                if did[int(L)] != x:
                    return ("device-id", "LOCATION %d has DEVICE_ID %s" % (L, x))
        if outtx is not None:
            b = w.durable(outtx)
            try:
                from dref.fvc2fp import FVC2FP as R
                rt = R.fromjson(b.decode())
                gx, gy = rt.fvc2fp(ex.xpix, ex.ypix)
            except Exception as x:
                return ("transform-file", "output transform unusable: %s" % read_exc(x))
            if not np.all(np.hypot(gx - np.array(ex.xfp), gy - np.array(ex.yfp)) < tol):
                return ("transform-file", "output transform is off by %.4f mm" % np.max(np.hypot(gx - ex.xfp, gy - ex.yfp)))
        if fm is not None:
            if "RA" not in t.colnames or "DEC" not in t.colnames:
                return ("radec-missing", "no RA, DEC columns")
            ra, dec = fm.fp2radec(np.array(t["X_FP"], float), np.array(t["Y_FP"], float))
            dra = (np.array(t["RA"], float) - ra + 180) % 360 - 180
            ds = 3600 * np.hypot(dra * np.cos(np.radians(dec)), np.array(t["DEC"], float) - dec)
            if not np.all(ds < 0.02):
                return ("radec-wrong", "RA,DEC is %.3f arcsec from the reference optics" % np.nanmax(ds))
        return None


PROP = P()
