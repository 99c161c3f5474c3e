"""P12  guide stars: the field model of an exposure reproduces the sky, or no model is given."""
import io
import json
import os
import random
import warnings

import numpy as np

from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder

NX, NY = 2048, 1032
KEYS = ["ra", "dec", "mjd", "lst", "hexrot_deg", "adc1", "adc2", "sxx", "syy", "sxy", "fieldrot_zp_deg", "fieldrot_deg",
        "expid", "nstars", "rms_arcsec", "precession", "aberration", "polar_misalignment"]


def petals():
    from dref import gfa2fp, io as rio
    if gfa2fp._gfa_transforms is None:
        gfa2fp._gfa_transforms = gfa2fp.fit_gfa2fp(rio.load_metrology())
    return sorted(int(p) for p in gfa2fp._gfa_transforms)


def ref_model(d):
    from dref.fieldmodel import FieldModel
    fm = FieldModel()
    for k in KEYS:
        if k in d:
            setattr(fm, k, d[k])
    return fm


def truth(e):
    """The true model of an exposure: where the telescope really points, how the field is really turned."""
    from dref.time import mjd2lst
    return ref_model({"ra": e["ra"] + e["dra"] / 3600. / np.cos(np.radians(e["dec"])), "dec": e["dec"] + e["ddec"] / 3600.,
                      "mjd": e["mjd"], "lst": mjd2lst(e["mjd"]) if e["lst"] is None else e["lst"], "hexrot_deg": e["hexrot"] / 3600.,
                      "adc1": e["adc"][0], "adc2": e["adc"][1], "sxx": e["scale"][0], "syy": e["scale"][1], "sxy": e["scale"][2],
                      "fieldrot_zp_deg": e["rot"], "precession": e["flags"][0], "aberration": e["flags"][1],
                      "polar_misalignment": e["flags"][2]})


def stars(e):
    """Catalogue of an exposure: rows as dicts, with the number of usable stars."""
    from dref import gfa2fp
    r = random.Random("stars/%d" % e["seed"])
    good = petals()
    fm = truth(e)
    rows = []
    for p in e["petals"]:
        for _ in range(e["n"]):
            x, y = r.uniform(0, NX - 1), r.uniform(0, NY - 1)
            rows.append({"petal_loc": p, "xcentroid": round(x, 5), "ycentroid": round(y, 5)})
    r.shuffle(rows)
    year = 2000 + (e["mjd"] - 51544.5) / 365.25
    xy = [gfa2fp.gfa2fp(s["petal_loc"], np.array([s["xcentroid"]]), np.array([s["ycentroid"]])) if s["petal_loc"] in good
          else (np.zeros(1), np.zeros(1)) for s in rows]
    aa, dd = sky_of(fm, np.array([float(x[0][0]) for x in xy]), np.array([float(x[1][0]) for x in xy]))
    for k, s in enumerate(rows):
        if s["petal_loc"] in good:
            ra, dec = float(aa[k]) % 360, float(dd[k])
        else:
            ra, dec = e["ra"] + r.uniform(-1, 1), e["dec"] + r.uniform(-1, 1)
        cd = np.cos(np.radians(dec))
        ra += e["noise"] * r.gauss(0, 1) / 3600. / cd
        dec += e["noise"] * r.gauss(0, 1) / 3600.
        s["use"] = s["petal_loc"] in good
        s["true"] = (ra, dec)
        pm = (0.0, 0.0)
        if e["pm"]:
            pm = (round(r.gauss(0, 60), 4), round(r.gauss(0, 60), 4))
            if r.random() < 0.1:
                pm = (float("nan"), float("nan"))
            s["pmra"], s["pmdec"], s["ref_epoch"] = pm[0], pm[1], r.choice([2015.5, 2016.0])
            f = (year - s["ref_epoch"]) / 3600e3
            m = [0.0 if v != v else v for v in pm]
            d0 = dec - m[1] * f
            s["ra_gaia"], s["dec_gaia"] = ra - m[0] * f / np.cos(np.radians(d0)), d0
        else:
            s["ra_gaia"], s["dec_gaia"] = ra, dec
        # the astrometry of the guide camera agrees within an arc second with the star, unless the match is wrong
        ang = r.uniform(0, 6.28)
        sep = r.uniform(0, 1.2)
        if k >= 6 and r.random() < e["badmatch"]:
            sep = r.uniform(3.5, 60)
            ra += sep * np.cos(ang) / 3600. / cd
            dec += sep * np.sin(ang) / 3600.
            s["ra"], s["dec"] = ra, dec
            # a wrong star: the pixels belong to another object
            s["xcentroid"] = round(r.uniform(0, NX - 1), 5)
            s["use"] = False
        else:
            s["ra"], s["dec"] = ra + sep * np.cos(ang) / 3600. / cd, dec + sep * np.sin(ang) / 3600.
    return rows, fm


COLS = ["petal_loc", "xcentroid", "ycentroid", "ra", "dec", "ra_gaia", "dec_gaia"]


def catalog_bytes(e, rows, fmt):
    from astropy.table import Table
    cols = [c for c in COLS if c not in e["nocol"]] + (["pmra", "pmdec", "ref_epoch"] if e["pm"] else [])
    t = Table()
    for c in cols:
        t[c] = [s[c] for s in rows]
    if e["mjdcol"]:
        r = random.Random("mjd/%d" % e["seed"])
        d = [r.uniform(-1e-6, 1e-6) for _ in rows]
        t["mjd_obs"] = [e["mjd"] + x - sum(d) / len(d) for x in d]
    b = io.BytesIO()
    if fmt == "fits":
        from astropy.io import fits
        fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(t)]).writeto(b)
        return b.getvalue()
    s = io.StringIO()
    t.write(s, format="ascii.csv")
    return s.getvalue().encode()


def header_bytes(e):
    from astropy.io import fits
    b = io.BytesIO()
    h = fits.Header()
    h["EXPID"] = e["expid"]
    h["TARGTRA"] = e["ra"]
    h["TARGTDEC"] = e["dec"]
    f = [1.1, -2.2, 0.3, 0.4, -0.5, e["hexrot"]]
    h["FOCUS"] = ",".join(repr(float(x)) for x in f)
    h["HEXPOS"] = ",".join("%.1f" % x for x in f)
    h["ADC1PHI"], h["ADC2PHI"] = e["adc"]
    if e["mjdkey"]:
        h[e["mjdkey"]] = e["mjd"] if not e["mjdcol"] else e["mjd"] - 0.02
        if e["mjdkey"] == "MJD-OBS":
            h["TCSMJD"] = e["mjd"] + 0.3
    if e["hdu"] == 0:
        hl = [fits.PrimaryHDU(header=h)]
    elif e["hdu"] == 1:
        hl = [fits.PrimaryHDU(), fits.ImageHDU(header=h)]
    else:
        hl = [fits.PrimaryHDU(), fits.ImageHDU()]
    fits.HDUList(hl).writeto(b)
    return b.getvalue()


def sky_of(fm, x, y):
    """Sky position of light which reaches (x, y): the inverse of radec2fp (fp2radec is approximate to 0.3 arcsec)."""
    u, t = np.array(x, float), np.array(y, float)
    ra, dec = fm.fp2radec(u, t)
    for _ in range(4):
        a, b = fm.radec2fp(ra, dec)
        u, t = u + (x - a), t + (y - b)
        ra, dec = fm.fp2radec(u, t)
    return ra, dec


def sep_arcsec(ra1, dec1, ra2, dec2):
    d = (np.asarray(ra1) - ra2 + 180) % 360 - 180
    return 3600 * np.hypot(d * np.cos(np.radians(dec2)), np.asarray(dec1) - dec2)


class P(Prop):
    id = "P12"
    rule = ("one case = one simulated night of guide exposures (pointing errors, field rotation, scales, proper motions, wrong matches, "
            "dead cameras) fit by the script or in one process, with disk faults and deaths; non-trivial = a model was compared with the sky")
    state_measure = "(entry point, format, number of cameras, proper motion, wrong matches, mjd source, defect of the exposure, faults, outcome)"
    real = ["fieldmodel", "bin/desi_fit_guide_star_coordinates", "bin/desi_predict_fieldrot", "gfa2fp", "tan2fp", "radec2tan", "io.read_hexrot_deg",
            "time.mjd2lst"]
    stubs = ["telescope, sky and guide cameras (frozen reference optics)", "disk faults", "process deaths", "clock"]
    assumptions = ["the errors of pointing are below six arc minutes and the exposure has stars in at least two guide cameras"]
    must_probe = ["model_ok", "script", "api", "pm", "badmatch", "one_short", "few_stars", "predict", "reload", "enospc", "eio", "crash",
                  "reported", "recovered", "wrap", "nocamera"]
    tiers = {"quick": {"runs": 1200, "cap_s": 60, "run_timeout": 100, "min_s": 50},
             "thorough": {"runs": 40000, "cap_s": 1500, "run_timeout": 100, "min_s": 120}}

    def setup(self, base):
        install_finder()
        petals()
        for n in ("astropy.table", "astropy.io.fits", "astropy.time", "fitsio"):
            __import__(n)
        from dref import tan2fp
        tan2fp.tan2fp(np.zeros(1), np.zeros(1), 0.0, 0.0)
        tan2fp.fp2tan(np.zeros(1), np.zeros(1), 0.0, 0.0)

    def gen(self, seed, tier):
        r = random.Random("p12gen/%d" % seed)
        have = petals()
        lost = [p for p in range(12) if p not in have]
        night_rot = max(-1.0, min(1.0, r.gauss(0, 0.3)))
        exps = []
        for i in range(r.randint(1, 4)):
            pet = r.sample(have, min(len(have), r.choice([2, 3, 4, 6])))
            if lost and r.random() < 0.2:
                pet.append(r.choice(lost))
            defect = r.choice([None] * 9 + ["few", "nomatch", "nocol", "nohdr", "nomjd"])
            e = {"seed": r.randrange(1 << 30), "expid": 50000 + 7 * i + r.randrange(3),
                 "ra": round(r.choice([r.uniform(0, 360), r.uniform(0, 360), r.uniform(-0.5, 0.5) % 360]), 4),
                 "dec": round(r.choice([r.uniform(-25, 75), r.uniform(-25, 75), r.uniform(75, 80)]), 4),
                 "mjd": round(r.uniform(58700, 60500), 6), "hexrot": round(r.choice([0, r.gauss(0, 100)]), 3),
                 "adc": r.choice([[0.0, 0.0], [round(r.uniform(0, 360), 3), round(r.uniform(0, 360), 3)]]),
                 "dra": round(r.gauss(0, r.choice([5, 60, 120])), 3), "ddec": round(r.gauss(0, r.choice([5, 60, 120])), 3),
                 "scale": [round(1 + r.gauss(0, 0.002), 6), round(1 + r.gauss(0, 0.002), 6), round(r.gauss(0, 0.001), 6)],
                 "rot": round(night_rot, 5), "petals": pet, "n": r.randint(3, 9), "noise": r.choice([0, 0, 0.02, 0.1]),
                 "pm": r.random() < 0.6, "badmatch": r.choice([0, 0, 0.1, 0.3]), "mjdcol": r.random() < 0.4,
                 "mjdkey": r.choice(["MJD-OBS", "MJD-OBS", "TCSMJD"]), "hdu": r.choice([0, 0, 1]), "flags": [True] * 3,
                 "lst": None, "nocol": [], "defect": defect, "fmt": r.choice(["csv", "fits"])}
            from dref.time import mjd2lst    # a field the telescope can point at
            ha = r.uniform(-60, 60) if e["dec"] > -10 else r.uniform(-30, 30)
            e["mjd"] = round(e["mjd"] + ((e["ra"] + ha - mjd2lst(e["mjd"])) % 360) / 360.98564736629, 6)
            if defect == "few":
                e.update(petals=[pet[0]], n=r.randint(1, 2), badmatch=0)
                if pet[0] in lost:
                    e["petals"] = [have[0]]
            elif defect == "nomatch":
                e["badmatch"] = 0
            elif defect == "nocol":
                e["nocol"] = [r.choice(["xcentroid", "ra_gaia", "ra", "petal_loc"])]
            elif defect == "nohdr":
                e["hdu"] = 2
            elif defect == "nomjd":
                e.update(mjdcol=False, mjdkey=None)
            exps.append(e)
        steps = []
        for _ in range(r.randint(2, 5)):
            k = r.random()
            i = r.randrange(len(exps))
            if k < 0.55:
                steps.append({"op": "script", "exp": i, "mk": r.random() < 0.5, "out": r.choice(["new", "new", "same", "flat"])})
            elif k < 0.85:
                steps.append({"op": "api", "exp": i, "proc": r.randrange(2), "args": r.random() < 0.4,
                              "flags": [r.random() < 0.8 for _ in range(3)] if r.random() < 0.4 else [True] * 3,
                              "lst": round(r.uniform(-3, 3), 4) if r.random() < 0.3 else None})
            else:
                steps.append({"op": "predict", "exp": i, "how": r.choice(["hdr", "args", "lst", "ha"])})
        faults = []
        if r.random() < 0.45:
            for _ in range(r.randint(1, 2)):
                k = r.choice(["enospc", "eio", "short", "emfile", "crash", "torn", "eacces"])
                faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 8])), "frac": round(r.random(), 3), "once": True,
                               "ops": {"enospc": ["write", "open_w", "mkdir"], "short": ["write"], "torn": ["write"], "emfile": ["open_r", "open_w"],
                                       "eio": r.choice([["open_r"], ["write"]]), "crash": ["write", "open_w", "open_r", "mkdir"],
                                       "eacces": ["open_w", "open_r"]}[k]})
        return {"seed": seed, "exps": exps, "steps": steps, "faults": faults, "_lists": ["steps", "faults"]}

    # ------------------------------------------------------------------
    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        w.install()
        self.n = 0
        try:
            data = []
            for i, e in enumerate(plan["exps"]):
                if e["ra"] < 1 or e["ra"] > 359:
                    w.probe("wrap")
                rows, fm = stars(e)
                if e["defect"] == "nomatch":
                    for s in rows:
                        s["dec"] += 0.01
                        s["use"] = False
                c = w.put(w.path("work", "in", "cat %d.%s" % (i, e["fmt"])), catalog_bytes(e, rows, e["fmt"]))
                h = w.put(w.path("work", "in", "gfa-%08d.fits" % i), header_bytes(e))
                data.append((c, h, rows, fm))
            w.faults = faults
            procs = {}
            todo = []
            for ns, s in enumerate(plan["steps"]):
                if v:
                    break
                if s["exp"] < len(data):
                    self.step(w, v, plan, s, ns, data[s["exp"]], procs, todo)
            # once the faults stop every exposure with enough stars gets its model
            w.clear_faults()
            for ns, s in enumerate(todo):
                if not v:
                    self.step(w, v, plan, s, 100 + ns, data[s["exp"]], procs, None)
                    w.probe("recovered")
        finally:
            w.uninstall()
        w.log("end", self.n, len(v.items))
        return outcome(w, v.items, nontrivial=self.n > 0, steps=len(plan["steps"]), evals=self.n)

    def step(self, w, v, plan, s, ns, dat, procs, todo):
        e = dict(plan["exps"][s["exp"]])
        cat, hdr, rows, _ = dat
        f0 = sum(w.fired.values())
        before = {p: w.durable(p) for p in (cat, hdr)}
        if s["op"] == "predict":
            self.predict(w, v, s, e, hdr)
        elif s["op"] == "script":
            w.probe("script")
            out = w.path("work", *{"new": ["out %d" % ns, "fm.json"], "same": ["out", "fm.json"], "flat": ["fm-%d.json" % ns]}[s["out"]])
            d = os.path.dirname(out)
            if not s["mk"]:
                os.makedirs(d, exist_ok=True)
            old = w.durable(out)
            rel = os.path.basename(out) if s["out"] == "flat" else out
            if s["out"] == "flat":
                out = os.path.join(os.getcwd(), rel)
                old = w.durable(out)
            p = w.new_process("guide%d" % ns)
            st, val = w.run_script(p, "desi_fit_guide_star_coordinates", ["-i", cat, "--fits-header", hdr, "-o", rel] + (["--make-directory"] if s["mk"] else []))
            code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
            hit = sum(w.fired.values()) > f0
            new = w.durable(out)
            self.outcome(w, v, s, e, rows, code, new if new != old or not code else None, st, val, hit, todo)
        else:
            w.probe("api")
            e.update(flags=s["flags"])
            pr = procs.get(s["proc"])
            if pr is None or pr.dead:
                pr = procs[s["proc"]] = w.new_process("api%d" % s["proc"])
            fl, lst = s["flags"], s["lst"]
            changed = fl != [True] * 3 or lst is not None
            if changed:       # the sky of this exposure is another one: only possible where the truth can be drawn again
                e["lst"] = None if lst is None else (truth(e).lst + lst) % 360
                rows, _ = stars(e)
                if e["defect"] == "nomatch":
                    for x in rows:
                        x["dec"] += 0.01
                        x["use"] = False
                cat = w.path("work", "in", "api %d.%s" % (ns, e["fmt"]))
                if w.durable(cat) is None:
                    w.put(cat, catalog_bytes(e, rows, e["fmt"]))
                before = {cat: w.durable(cat), hdr: w.durable(hdr)}

            def body():
                from desimeter.fieldmodel import FieldModel
                fm = FieldModel()
                fm.ra, fm.dec, fm.expid = e["ra"], e["dec"], e["expid"]
                fm.adc1, fm.adc2 = e["adc"]
                fm.precession, fm.aberration, fm.polar_misalignment = fl
                kw = {}
                if s["args"]:
                    kw = {"mjd": e["mjd"], "hexrot_deg": e["hexrot"] / 3600.}
                    if e["pm"]:
                        fm.mjd = e["mjd"]
                else:
                    fm.hexrot_deg = e["hexrot"] / 3600.
                    if e["defect"] != "nomjd":
                        fm.mjd = e["mjd"]
                if e["lst"] is not None:
                    if s["args"]:
                        kw["lst"] = e["lst"]
                    else:
                        fm.lst = e["lst"]
                t = fm.read_guide_stars_catalog(cat)
                if s["args"]:        # left over from an earlier exposure: the arguments count
                    fm.mjd, fm.hexrot_deg = e["mjd"] - 30.3, 0.3
                    if "lst" in kw:
                        fm.lst = kw["lst"] + 5
                fm.fit_tancorr(t, **kw)
                return fm.tojson()
            st, val = w.call(pr, body)
            hit = sum(w.fired.values()) > f0
            if e["defect"] == "nohdr" or (e["defect"] == "nomjd" and s["args"] and not e["pm"]):
                e["defect"] = None
            if e["defect"] == "nomjd" and s["args"]:
                e["defect"] = None
            self.outcome(w, v, s, e, rows, 0 if st == "ok" else 1, val.encode() if st == "ok" else None, st, val, hit,
                         todo if st != "crash" else None)
        for p, b in before.items():
            if b is not None and w.durable(p) != b:
                v.add("input-modified", "%s changed" % p)

    def outcome(self, w, v, s, e, rows, code, js, st, val, hit, todo):
        use = [x for x in rows if x["use"]]
        ok = e["defect"] is None
        w.state(s["op"], e["fmt"], len(e["petals"]), e["pm"], e["badmatch"] > 0, e["mjdcol"], e["mjdkey"], e["defect"], hit, code)
        what = "%s of exposure %d (%s, %d stars%s)" % (s["op"], e["expid"], e["fmt"], len(use), ", " + e["defect"] if e["defect"] else "")
        try:
            d = json.loads(js.decode()) if js else None
        except ValueError:
            d = None
        if code:
            if ok and not hit:
                v.add("not-fit", "%s fails: %s %s" % (what, st, read_exc(val) if st == "exc" else val))
            elif ok:
                w.probe("reported")
                if todo is not None:
                    todo.append(dict(s, mk=True) if s["op"] == "script" else s)
            else:
                w.probe("few_stars" if e["defect"] == "few" else "one_short")
            if d is None or st in ("crash",):
                return
            if not ok:
                v.add("failure-with-model", "%s fails but writes a model" % what)
                return
        elif d is None:
            v.add("no-model", "%s ends well, without a complete model: %r" % (what, (js or b"")[:80]))
            return
        if not ok:
            v.add("unusable-accepted", "%s gives a model: nstars=%s rms=%s" % (what, d.get("nstars"), d.get("rms_arcsec")))
            return
        self.n += 1
        if e["pm"]:
            w.probe("pm")
        if e["badmatch"]:
            w.probe("badmatch")
        self.judge(w, v, e, d, use, what, js)

    def judge(self, w, v, e, d, use, what, js):
        miss = [k for k in KEYS if k not in d]
        if miss:
            v.add("missing-keys", "%s: no %s in the model" % (what, miss))
            return
        for k, x in (("expid", e["expid"]), ("mjd", e["mjd"]), ("hexrot_deg", e["hexrot"] / 3600.), ("adc1", e["adc"][0]), ("adc2", e["adc"][1]),
                     ("nstars", len(use)), ("precession", e["flags"][0]), ("aberration", e["flags"][1]), ("polar_misalignment", e["flags"][2])):
            if abs(d[k] - x) > 1e-8 * max(1, abs(x)):
                v.add("wrong-" + k, "%s: %s is %r, expected %r" % (what, k, d[k], x))
                return
        t, m = truth(e), ref_model(d)
        if abs((d["lst"] - t.lst + 180) % 360 - 180) > 1e-4:
            v.add("wrong-lst", "%s: LST %.5f, expected %.5f" % (what, d["lst"], t.lst))
            return
        from dref import gfa2fp
        if any(p not in petals() for p in e["petals"]):
            w.probe("nocamera")
        xf, yf = np.zeros(len(use)), np.zeros(len(use))
        for k, x in enumerate(use):
            a, b = gfa2fp.gfa2fp(x["petal_loc"], np.array([x["xcentroid"]]), np.array([x["ycentroid"]]))
            xf[k], yf[k] = float(a[0]), float(b[0])
        ra, dec = sky_of(m, xf, yf)
        sr, sd = np.array([x["true"][0] for x in use]), np.array([x["true"][1] for x in use])
        res = sep_arcsec(ra, dec, sr, sd)
        rms = float(np.sqrt(np.mean(res ** 2)))
        if rms > 3 * e["noise"] + 0.03:
            v.add("stars-off", "%s: the model misses the stars by %.3f arcsec rms (noise %.3f)" % (what, rms, e["noise"]))
        if abs(rms - d["rms_arcsec"]) > 0.03 + 0.02 * rms:
            v.add("wrong-rms", "%s: rms_arcsec is %.4f, the residuals of the stars %.4f" % (what, d["rms_arcsec"], rms))
        # over the focal plane, with the lever arm of the guide cameras used
        g = np.linspace(-400, 400, 5)
        gx, gy = [a.ravel() for a in np.meshgrid(g, g)]
        k = np.hypot(gx, gy) < 415
        gx, gy = gx[k], gy[k]
        ra1, dec1 = sky_of(t, gx, gy)
        off = sep_arcsec(*sky_of(m, gx, gy), ra1, dec1).max()
        A = np.array([np.ones(len(use)), xf, yf])
        C = np.linalg.inv(A.dot(A.T))
        G = np.array([np.ones(len(gx)), gx, gy])
        lever = float(np.sqrt(np.einsum("ik,ij,jk->k", G, C, G)).max())
        tol = 0.08 + 7 * e["noise"] * lever
        if off > tol:
            v.add("sky-off", "%s: the model is off by %.3f arcsec over the focal plane (tolerance %.3f)" % (what, off, tol))
        rt = t.compute_fieldrot()
        if abs((d["fieldrot_deg"] - rt + 180) % 360 - 180) > (0.08 + 7 * e["noise"] * lever) / 3600 / 1.5 * 57.3 + 2e-5:
            v.add("wrong-fieldrot", "%s: field rotation %.5f, true value %.5f" % (what, d["fieldrot_deg"], rt))
        if abs(d["fieldrot_deg"] - m.compute_fieldrot()) > 1e-7:
            v.add("fieldrot-inconsistent", "%s: field rotation %.6f, that of the model is %.6f" % (what, d["fieldrot_deg"], m.compute_fieldrot()))
        if v:
            return
        w.probe("model_ok")
        # a later process reads the model back
        if (self.n + e["expid"]) % 3:
            return
        w.probe("reload")
        keep, w.faults = w.faults, []

        def body():
            from desimeter.fieldmodel import FieldModel
            fm = FieldModel.fromjson(js.decode())
            a = fm.fp2radec(gx, gy)
            b = fm.radec2fp(ra1, dec1)
            return a, b, FieldModel.fromjson(fm.tojson()).tojson() == fm.tojson(), json.loads(fm.tojson())
        st, val = w.call(w.new_process("reload"), body)
        w.faults = keep
        if st != "ok":
            v.add("reload-failed", "%s: %s" % (what, read_exc(val) if st == "exc" else val))
            return
        if sep_arcsec(*val[0], *m.fp2radec(gx, gy)).max() > 1e-6 or val[3] != d:
            v.add("reload-differs", "%s: the model read back is another one" % what)
        if np.hypot(val[1][0] - gx, val[1][1] - gy).max() > 0.002 + tol * 0.08:
            v.add("not-inverse", "%s: radec2fp is off by %.4f mm" % (what, np.hypot(val[1][0] - gx, val[1][1] - gy).max()))

    def predict(self, w, v, s, e, hdr):
        from dref import fieldmodel as F
        from dref.time import mjd2lst
        lst, hexrot = mjd2lst(e["mjd"]), e["hexrot"] / 3600.
        mjd = e["mjd"]
        f0 = sum(w.fired.values())
        if s["how"] == "hdr":
            if e["mjdkey"] != "MJD-OBS" or e["defect"] == "nohdr":
                return
            mjd = e["mjd"] if not e["mjdcol"] else e["mjd"] - 0.02
            lst = mjd2lst(mjd)
            argv = ["--fits-header", hdr]
        else:
            argv = ["--ra", str(e["ra"]), "--dec", str(e["dec"]), "--mjd", repr(mjd), "--hexrot-arcsec", str(e["hexrot"])]
            if s["how"] == "lst":
                lst = 123.456
                argv += ["--lst", str(lst)]
            elif s["how"] == "ha":
                lst = e["ra"] - 21.5
                argv += ["--ha", "-21.5"]
        n0 = len(w.stdout.getvalue())
        st, val = w.run_script(w.new_process("predict"), "desi_predict_fieldrot", argv)
        if sum(w.fired.values()) > f0:
            return
        if st == "exc" or (st == "exit" and val):
            v.add("predict-failed", "desi_predict_fieldrot %s: %s" % (argv, val))
            return
        import re
        txt = w.stdout.getvalue()[n0:]
        a, b = re.search(r"\bFIELDROT\s*=\s*(\S+)", txt), re.search(r"DFIELDROTDT\s*=\s*(\S+)", txt)
        want = F.fieldrot(e["ra"], e["dec"], mjd, lst, hexrot), F.dfieldrotdt(e["ra"], e["dec"], mjd, lst)
        if not a or not b or abs(float(a.group(1)) - want[0]) > 6e-4 or abs(float(b.group(1)) - want[1]) > 6e-4:
            v.add("wrong-prediction", "desi_predict_fieldrot %s prints %r, expected %.4f %.4f" % (argv, txt[-120:], want[0], want[1]))
        w.probe("predict")


PROP = P()
