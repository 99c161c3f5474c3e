"""P16  transforms saved as JSON: the same answers after a restart, or refused."""
import argparse
import io
import json
import os
import random
import warnings

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder

FMKEYS = ["ra", "dec", "mjd", "lst", "hexrot_deg", "adc1", "adc2", "sxx", "syy", "sxy", "fieldrot_zp_deg", "fieldrot_deg",
          "expid", "nstars", "rms_arcsec", "precession", "aberration", "polar_misalignment"]
KINDS = ["simple", "solid", "tan", "fvc", "fvcfix", "dm2pm", "ray", "rayfit", "field"]
DATA = {}


def cls(kind):
    if kind in ("simple", "solid"):
        from desimeter.simplecorr import SimpleCorr as C
    elif kind == "tan":
        from desimeter.fieldmodel import TanCorr as C
    elif kind == "field":
        from desimeter.fieldmodel import FieldModel as C
    elif kind in ("fvc", "fvcfix"):
        from desimeter.transform.fvc2fp import FVC2FP as C
    elif kind == "dm2pm":
        from desimeter.transform.dm2pm import DM2PM as C
    else:
        from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit as C
    return C


def rot(deg):
    a = np.radians(deg)
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def sample(kind, r, n=40):
    """Points where a transform is compared: forward and backward."""
    if kind in ("simple", "solid"):
        s = np.array([[r.uniform(-400, 400) for _ in range(n)] for _ in (0, 1)])
    elif kind == "tan":
        s = np.array([[r.uniform(-0.027, 0.027) for _ in range(n)] for _ in (0, 1)])
    elif kind in ("fvc", "fvcfix"):
        q = np.array([[r.uniform(0, 2400), r.uniform(0, 6.3)] for _ in range(n)])
        s = 3000 + np.array([q[:, 0] * np.cos(q[:, 1]), q[:, 0] * np.sin(q[:, 1])])
    elif kind in ("ray", "rayfit"):
        q = np.array([[r.uniform(0, 0.027), r.uniform(0, 6.3)] for _ in range(n)])
        s = np.array([q[:, 0] * np.cos(q[:, 1]), q[:, 0] * np.sin(q[:, 1])])
    else:
        q = np.array([[r.uniform(0, 400), r.uniform(0, 6.3)] for _ in range(n)])
        s = np.array([q[:, 0] * np.cos(q[:, 1]), q[:, 0] * np.sin(q[:, 1])])
    return s, [(r.uniform(-180, 180), r.uniform(-180, 180)) for _ in range(2)]


def evaluate(kind, tx, pts):
    """Answers of a transform: forward at the points, and back from there."""
    (x, y), adcs = pts
    x, y = x.copy(), y.copy()
    out = []
    if kind in ("simple", "solid", "tan"):
        a = tx.apply(x, y)
        out = [a, tx.apply_inverse(*a)]
    elif kind in ("fvc", "fvcfix"):
        a = tx.fvc2fp(x, y)
        out = [a, tx.fp2fvc(a[0].copy(), a[1].copy())]
    elif kind == "dm2pm":
        a = tx.dm2pm(x, y)
        out = [a, tx.pm2dm(*a)]
    elif kind in ("ray", "rayfit"):
        for adc in adcs:
            a = tx.tan2fp(x, y, *adc)
            out += [a, tx.fp2tan(a[0].copy(), a[1].copy(), *adc)]
    else:
        a = tx.fp2radec(x, y)
        out = [a, tx.radec2fp(*a), (np.array([tx.compute_fieldrot()]), np.zeros(1))]
    return [np.array([np.array(p, float), np.array(q, float)]).copy() for p, q in out]


class RefCorr:
    """Model of SimpleCorr and TanCorr from the parameters of a file."""

    def __init__(self, kind, d):
        self.kind, self.d = kind, d
        s = np.array([[d["sxx"], d["sxy"]], [d["sxy"], d["syy"]]])
        self.m = s.dot(rot(d["rot_deg"]))

    def apply(self, x, y):
        d = self.d
        if self.kind == "tan":
            from dref.radec2tan import hadec2xy, xy2hadec
            h, e = xy2hadec(x, y, 0, 0)
            x, y = hadec2xy(h, e, d["dha"], d["ddec"])
            return self.m.dot(np.array([x, y]))
        return self.m.dot(np.array([x, y])) + np.array([[d["dx"]], [d["dy"]]])

    def apply_inverse(self, x, y):
        d = self.d
        i = np.linalg.inv(self.m)
        if self.kind == "tan":      # as written: the offset is applied in the same direction
            from dref.radec2tan import hadec2xy, xy2hadec
            h, e = xy2hadec(x, y, 0, 0)
            x, y = hadec2xy(h, e, d["dha"], d["ddec"])
            return i.dot(np.array([x, y]))
        return i.dot(np.array([x - d["dx"], y - d["dy"]]))


def reference(kind, text):
    """Frozen reference implementation of the transform of a file."""
    d = json.loads(text)
    if kind in ("simple", "solid", "tan"):
        return RefCorr(kind, d)
    if kind in ("fvc", "fvcfix"):
        from dref.fvc2fp import FVC2FP as C
        return C.fromjson(text)
    if kind == "dm2pm":
        from dref.dm2pm import DM2PM as C
        return C.fromjson(text)
    if kind in ("ray", "rayfit"):
        from dref.raytracefit import TAN2FP_RayTraceFit as C
        return C.fromjson(text)
    from dref.fieldmodel import FieldModel
    fm = FieldModel()
    for k in FMKEYS:
        setattr(fm, k, d.get(k, True))
    return fm


def differ(a, b, rel=0.0):
    """Largest relative difference of two lists of answers, or None if they are alike within rel."""
    if len(a) != len(b):
        return "number of answers"
    for k, (p, q) in enumerate(zip(a, b)):
        if p.shape != q.shape:
            return "shape"
        with np.errstate(invalid="ignore"):
            bad = ~((p == q) | (np.abs(p - q) <= rel * np.nanmax(np.abs(q))) | (np.isnan(p) & np.isnan(q)))
        if bad.any():
            i = np.argwhere(bad)[0]
            return "answer %d: %.9g, expected %.9g" % (k, p[tuple(i)], q[tuple(i)])
    return None


SCALE = {"simple": 1e-8, "solid": 1e-8, "fvc": 2e-3, "fvcfix": 2e-3, "ray": 1e-7, "rayfit": 1e-7, "field": 0.02}   # inverse of the forward answer


STATS = []


class P(Prop):
    id = "P16"
    rule = ("one case = processes fitting, saving, loading and using transforms of all kinds in shared files, with restarts, old formats, disk "
            "faults and deaths; non-trivial = a loaded transform was compared with the saved one")
    state_measure = "(kind, operation, history of the file, faults fired, outcome)"
    real = ["fieldmodel", "simplecorr", "transform.fvc2fp", "transform.dm2pm", "transform.tan2fp.raytracefit", "transform.zhaoburge", "bin/fit_raytrace_tan2fp"]
    stubs = ["data the transforms are fit to", "disk faults", "process deaths"]
    assumptions = ["a write which reported success survives the death of the process"]
    must_probe = KINDS + ["restart", "loaded", "refused", "overwritten", "legacy", "crash", "torn", "short", "enospc", "eio", "emfile", "unknown",
                          "truncated", "missing_key", "script", "shipped", "same_process", "reported"]
    tiers = {"quick": {"runs": 1500, "cap_s": 85, "run_timeout": 100, "min_s": 50},
             "thorough": {"runs": 50000, "cap_s": 1800, "run_timeout": 100, "min_s": 120}}

    def setup(self, base):
        install_finder()
        for n in ("astropy.table", "astropy.io.ascii", "scipy.optimize", "scipy.interpolate", "astropy.time", "argparse"):
            __import__(n)
        warnings.simplefilter("ignore")
        __import__("pkg_resources")
        self.inst = I.FullInstrument(base)
        import dref
        from dref import tan2fp
        tan2fp.tan2fp(np.zeros(1), np.zeros(1), 0.0, 0.0)
        tan2fp.fp2tan(np.zeros(1), np.zeros(1), 0.0, 0.0)
        data = os.path.join(os.path.dirname(dref.__file__), "data")
        from dref import raytracefit
        DATA["ray"] = json.loads(raytracefit.get_raytracefit().tojson())
        self.rays = {}
        pts = sample("ray", random.Random("shipped"))
        self.shipped = (pts, evaluate("ray", raytracefit.get_raytracefit(), pts))

    def gen(self, seed, tier):
        r = random.Random("p16gen/%d" % seed)
        kinds = r.sample(KINDS, r.choice([1, 2, 3]))
        steps = []
        for _ in range(r.randint(3, 9)):
            op = r.choice(["make", "make", "make", "load", "load", "load", "restart", "use", "use", "bad", "legacy", "script" if "rayfit" in kinds else "use"])
            steps.append({"op": op, "kind": r.choice(kinds), "slot": r.randrange(2), "seed": r.randrange(1 << 30)})
        faults = []
        if r.random() < 0.5:
            for _ in range(r.randint(1, 3)):
                k = r.choice(["eio", "emfile", "enospc", "crash", "short", "torn"])
                faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 6])), "frac": round(r.random(), 3), "once": True,
                               "ops": {"enospc": ["write", "open_w"], "short": ["write"], "torn": ["write"], "emfile": ["open_r", "open_w"],
                                       "eio": r.choice([["open_r"], ["write"]]), "crash": ["write", "open_w", "open_r"]}[k]})
        return {"seed": seed, "steps": steps, "faults": faults, "_lists": ["steps", "faults"]}

    # ---- transforms fit to simulated data ---------------------------------
    def make(self, kind, seed):
        """(function which makes the transform in the simulated process, check of the fit or None)"""
        r = random.Random("make/%s/%d" % (kind, seed))
        g = np.random.default_rng(seed)
        if kind in ("simple", "solid"):
            n = r.choice([3, 5, 40])
            while True:
                x, y = g.uniform(-300, 300, (2, n))
                if np.linalg.svd(np.array([x - x.mean(), y - y.mean()]))[1][1] > 60:
                    break
            m = rot(r.uniform(-180, 180))
            if kind == "simple":
                s = np.array([[1 + r.gauss(0, 0.1), r.gauss(0, 0.05)], [0, 1 + r.gauss(0, 0.1)]])
                s[1, 0] = s[0, 1]
                m = s.dot(m)
            d = np.array([[r.gauss(0, 50)], [r.gauss(0, 50)]])
            u, v = m.dot(np.array([x, y])) + d

            def fn(old=None):
                c = cls(kind)() if old is None else old
                c.fit(x.copy(), y.copy(), u.copy(), v.copy(), **({"solid": True} if kind == "solid" else {}))
                return c

            def chk(tx):
                a, b = tx.apply(x, y)
                e = np.hypot(a - u, b - v).max()
                if not e < 1e-6:
                    return "the fit of exact positions is wrong by %g" % e
                if tx.nmatch != n or not abs(tx.rms) < 1e-6:
                    return "nmatch %s and rms %s recorded for %d exact positions" % (tx.nmatch, tx.rms, n)
                return None
            return fn, chk
        if kind == "tan":
            n = r.choice([5, 30])
            x, y = g.uniform(-0.025, 0.025, (2, n))
            from dref.radec2tan import hadec2xy, xy2hadec
            h, e = xy2hadec(x, y, 0, 0)
            x2, y2 = hadec2xy(h, e, r.uniform(-0.01, 0.01), r.uniform(-0.01, 0.01))
            q = r.gauss(0, 1e-3)
            u, v = np.array([[1 + r.gauss(0, 1e-3), q], [q, 1 + r.gauss(0, 1e-3)]]).dot(rot(max(-2, min(2, r.gauss(0, 1))))).dot(np.array([x2, y2]))

            def fn(old=None):
                c = cls(kind)() if old is None else old
                c.fit(x.copy(), y.copy(), u.copy(), v.copy())
                return c

            def chk(tx):
                a, b = tx.apply(x, y)
                e = np.degrees(np.hypot(a - u, b - v).max()) * 3600
                if not e < 0.1:
                    return "the fit of exact directions is wrong by %g arcsec" % e
                if tx.nstars != n:
                    return "nstars %s recorded for %d" % (tx.nstars, n)
                return None
            return fn, chk
        if kind in ("fvc", "fvcfix"):
            fp = self.inst.fp
            far = r.sample(fp.fidlocs.tolist(), r.choice([20, 40, 80]))
            ii = [i for i in fp.ifid if fp.loc[i] in set(far)] + r.sample(fp.ipos.tolist(), 40)
            r.shuffle(ii)
            tx = self.inst.tx(r, 1.0)
            px, py = tx.fp2fvc(fp.x[ii], fp.y[ii])
            ex = argparse.Namespace(xpix=px, ypix=py, loc=fp.loc[ii], pin=fp.pin[ii], xfp=fp.x[ii], yfp=fp.y[ii])
            upd = r.random() < 0.5

            def fn(old=None):
                from astropy.table import Table
                t = Table([ex.xpix.copy(), ex.ypix.copy(), np.array(ex.loc).copy(), np.array(ex.pin).copy()], names=["XPIX", "YPIX", "LOCATION", "PINHOLE_ID"])
                c = cls(kind)() if old is None else old
                if old is None or kind == "fvc":
                    c.fit(t, zbfit=True, update_spots=upd)
                if kind == "fvcfix":
                    s, a, z = c.scale, c.rotation, np.array(c.zbcoeffs).copy()
                    c.fit(t, fixed_scale=True, fixed_rotation=True, zbfit=False)
                    if c.scale != s or c.rotation != a or not np.array_equal(z, c.zbcoeffs):
                        raise AssertionError("fixed parameters changed")
                if not upd and sorted(t.colnames) != sorted(["XPIX", "YPIX", "LOCATION", "PINHOLE_ID"]):
                    raise AssertionError("the table of spots is changed")
                return c

            def chk(tx):
                fid = np.array(ex.pin) > 0
                a, b = tx.fvc2fp(np.array(ex.xpix), np.array(ex.ypix))
                e = np.hypot(a - ex.xfp, b - ex.yfp)
                if not e[fid].max() < 0.02:
                    return "the fit misses a fiducial by %.4f mm" % e[fid].max()
                got = (tx.nmatch, tx.meandistance, tx.mediandistance, tx.rmsdistance)
                d = 1000 * e[fid]
                exp = (int(fid.sum()), d.mean(), np.median(d), np.sqrt(np.mean(d ** 2)))
                if got[0] != exp[0] or max(abs(p - q) for p, q in zip(got[1:], exp[1:])) > 0.05:
                    return "distances of %s recorded, %s found" % (got, exp)
                return None
            return fn, chk
        if kind == "dm2pm":
            from dref.zhaoburge import getZhaoBurgeXY
            ids = np.array([0, 1, 2, 3, 4, 5, 6, 9, 20, 27, 28, 29, 30])
            q = np.array([[r.uniform(0, 400), r.uniform(0, 6.3)] for _ in range(r.choice([60, 200]))])
            x, y = q[:, 0] * np.cos(q[:, 1]), q[:, 0] * np.sin(q[:, 1])
            c0 = g.normal(0, 3e-5, len(ids))
            dx, dy = getZhaoBurgeXY(ids, c0, x / 420, y / 420)
            u, v = x + 420 * dx, y + 420 * dy

            def fn(old=None):
                c = cls(kind)() if old is None else old
                c.fit(x.copy(), y.copy(), u.copy(), v.copy())
                return c

            def chk(tx):
                a, b = tx.dm2pm(x, y)
                p, s = tx.pm2dm(u, v)
                e, f = np.hypot(a - u, b - v).max(), np.hypot(p - x, s - y).max()
                return None if e < 1e-6 and f < 1e-3 else "the fit of exact positions is wrong by %g and %g mm" % (e, f)
            return fn, chk
        if kind == "field":
            vals = {"ra": r.uniform(0, 360), "dec": r.uniform(-20, 70), "mjd": r.uniform(58700, 60000), "lst": None, "hexrot_deg": r.gauss(0, 0.03),
                    "adc1": r.uniform(0, 360), "adc2": r.uniform(0, 360), "sxx": 1 + r.gauss(0, 1e-3), "syy": 1 + r.gauss(0, 1e-3), "sxy": r.gauss(0, 1e-4),
                    "fieldrot_zp_deg": r.gauss(0, 0.3), "fieldrot_deg": r.gauss(0, 0.3), "expid": r.randrange(100000), "nstars": r.randrange(3, 90),
                    "rms_arcsec": r.uniform(0, 0.3), "precession": r.random() < 0.6, "aberration": r.random() < 0.6, "polar_misalignment": r.random() < 0.6}
            vals["lst"] = (vals["ra"] + r.uniform(-40, 40)) % 360
            if r.random() < 0.3:
                vals["adc1"] = int(vals["adc1"])

            def fn(old=None):
                c = cls(kind)() if old is None else old
                for k, q in vals.items():
                    setattr(c, k, q)
                return c
            return fn, lambda tx: next((k for k in FMKEYS if getattr(tx, k) != vals[k]), None)
        d = self.ray_params(r, kind == "rayfit")
        if kind == "ray":
            return (lambda old=None: cls(kind).fromjson(json.dumps(d))), None
        t = self.ray_table(d, r)

        def fn(old=None):
            from astropy.table import Table
            c = cls(kind)() if old is None else old
            c.fit(Table(t))
            return c
        return fn, lambda tx: self.ray_check(tx, t)

    @staticmethod
    def ray_params(r, small):
        d = json.loads(json.dumps(DATA["ray"]))
        n = len(d["adc1"])
        z = np.array(d["zbcoeffs"]).reshape(n, -1) * (1 + np.array([[r.gauss(0, 0.02)] for _ in range(n)]))
        if small:
            k = sorted(r.sample(range(1, n - 1), r.choice([3, 5]))) + [0, n - 1]
            r.shuffle(k)
        else:
            k = list(range(n))
            r.shuffle(k)
            d["scale"] = [1 + r.gauss(0, 1e-3)] * n
            d["rotation"] = [r.gauss(0, 1e-2)] * n
            d["offset_x"] = [r.gauss(0, 1e-3)] * n
            d["offset_y"] = [r.gauss(0, 1e-3)] * n
        for c in ("adc1", "adc2", "scale", "rotation", "offset_x", "offset_y"):
            d[c] = [d[c][i] for i in k]
        d["zbcoeffs"] = z[k].ravel().tolist()
        return d

    @staticmethod
    def ray_table(d, r):
        from dref.raytracefit import TAN2FP_RayTraceFit as C
        ref = C.fromjson(json.dumps(d))
        cols = {k: [] for k in ("ADC1", "ADC2", "X_TAN", "Y_TAN", "X_FP", "Y_FP")}
        order = list(range(len(d["adc1"])))
        for i in order:
            s, _ = sample("ray", r, 60)
            x, y = ref.tan2fp(s[0], s[1], d["adc1"][i], d["adc2"][i])
            for c, q in zip(cols, ([d["adc1"][i]] * 60, [d["adc2"][i]] * 60, s[0], s[1], x, y)):
                cols[c] += [float(p) for p in q]
        p = list(range(len(cols["ADC1"])))
        r.shuffle(p)
        return {c: [cols[c][i] for i in p] for c in cols}

    @staticmethod
    def ray_check(tx, t):
        a = {c: np.array(q) for c, q in t.items()}
        for adc in sorted(set(zip(t["ADC1"], t["ADC2"]))):
            if abs(adc[1] - adc[0]) >= 359:     # the rotation by half a turn of both correctors is reduced to zero
                continue
            ii = (a["ADC1"] == adc[0]) & (a["ADC2"] == adc[1])
            x, y = tx.tan2fp(a["X_TAN"][ii], a["Y_TAN"][ii], *adc)
            e = np.hypot(x - a["X_FP"][ii], y - a["Y_FP"][ii]).max()
            if not e < 1e-4:
                return "the fit of exact rays is wrong by %g mm at ADC %s" % (e, adc)
        return None

    # ---- run --------------------------------------------------------------
    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        w.install()
        S = {"n": 0, "held": {}, "files": {}, "dirty": set(), "proc": None, "np": 0}
        try:
            w.use_data(self.inst.datadir, inside=False)
            S["proc"] = w.new_process("calib")
            w.faults = faults
            for k, s in enumerate(plan["steps"]):
                if v:
                    break
                if S["proc"].dead or s["op"] == "restart":
                    S["np"] += 1
                    S["proc"] = w.new_process("calib%d" % S["np"])
                    S["held"] = {}
                    w.probe("restart")
                if s["op"] == "restart":
                    continue
                st = getattr(self, "op_" + s["op"])(w, v, S, s, k)
                w.log(s["op"], s["kind"], s["slot"], st)
                w.state(s["kind"], s["op"], sorted(w.fired), st)
        finally:
            w.uninstall()
        w.log("end", S["n"], len(v.items))
        return outcome(w, v.items, nontrivial=S["n"] > 0, steps=len(plan["steps"]), evals=S["n"])

    def fname(self, w, s):
        return w.path("work", "%s %d.json" % (s["kind"], s["slot"]))

    def op_make(self, w, v, S, s, k):
        """Fits a transform, keeps it in memory and saves it."""
        kind = s["kind"]
        r = random.Random("op/%d" % s["seed"])
        fn, chk = self.make(kind, s["seed"])
        pts = sample(kind, r)
        reuse = r.random() < 0.3
        held = S["held"].get((kind, s["slot"]))
        old = held[0] if held and reuse and kind not in ("ray",) else None
        if old is not None:
            w.probe("same_process")
        f0 = sum(w.fired.values())

        def body():
            tx = fn(old)
            return tx, (chk(tx) if chk and not (kind == "fvcfix" and old is not None) else None), evaluate(kind, tx, pts), tx.tojson()
        st, val = w.call(S["proc"], body)
        if st != "ok":
            S["held"].pop((kind, s["slot"]), None)
            if sum(w.fired.values()) == f0 or isinstance(val, AssertionError):
                v.add("fit-failed", "fit of %s: %s %s" % (kind, st, read_exc(val) if st == "exc" else val))
            else:
                w.probe("reported")
            return st
        tx, bad, ans, txt = val
        w.probe(kind)
        if bad:
            v.add("bad-fit", "%s%s: %s" % (kind, " (refit)" if old is not None else "", bad))
            return "bad"
        self.compare(w, v, kind, txt, ans, pts, "after the fit")
        S["held"][(kind, s["slot"])] = (tx, pts, ans, txt)
        f = self.fname(w, s)
        new = txt

        def save():
            if kind in ("simple", "solid", "tan", "field"):
                with open(f, "w") as o:
                    o.write(tx.tojson())
            elif s["seed"] % 2 and hasattr(tx, "write"):
                tx.write(f)
            else:
                tx.write_jsonfile(f)
            return True
        f1 = sum(w.fired.values())
        st, val = w.call(S["proc"], save)
        h = S["files"].setdefault(f, {"kind": kind, "may": set(), "made": {}})
        if h["may"]:
            w.probe("overwritten")
        h["made"][new] = (pts, ans)
        if st == "ok":
            h["may"] = {new}
            h.pop("raw", None)
            S["dirty"].discard(f)
        else:
            if sum(w.fired.values()) == f1:
                v.add("save-failed", "%s: %s %s" % (kind, st, read_exc(val) if st == "exc" else val))
            w.probe("reported")
            h["may"] |= {new, None}
        return st

    def compare(self, w, v, kind, txt, ans, pts, when):
        """The answers are those of the frozen reference for this file, and the inverse is one."""
        try:
            ref = evaluate(kind, reference(kind, txt), pts)
        except Exception as e:
            v.add("unreadable-by-reference", "%s %s: %s" % (kind, when, read_exc(e)))
            return
        d = differ(ans, ref, 1e-9 if kind != "field" else 1e-8)
        if d:
            v.add("wrong-answer", "%s %s: %s" % (kind, when, d))
        tol = SCALE.get(kind)
        if tol is not None and not v:
            for i in range(1, len(ans), 2):
                if kind == "field" and i > 1:
                    break
                e = np.abs(ans[i] - pts[0]).max()
                if not e < tol * (1 if kind not in ("ray", "rayfit") else 1):
                    v.add("not-inverse", "%s %s: forward and back differs by %g" % (kind, when, e))

    def op_use(self, w, v, S, s, k):
        """A transform in memory answers as when it was made, whatever was fit, saved or loaded since."""
        if not S["held"]:
            return "none"
        key = sorted(S["held"])[s["seed"] % len(S["held"])]
        tx, pts, ans, txt = S["held"][key]
        kind = key[0]
        f0 = sum(w.fired.values())
        st, val = w.call(S["proc"], lambda: (evaluate(kind, tx, pts), tx.tojson(), str(tx)))
        if st != "ok":
            if sum(w.fired.values()) == f0:
                v.add("failed", "use of %s: %s %s" % (kind, st, read_exc(val) if st == "exc" else val))
            return st
        d = differ(val[0], ans)
        if d or json.loads(val[1]) != json.loads(txt):
            v.add("changed-in-memory", "%s %d gives something else than when it was made (%s)" % (kind, key[1], d))
        S["n"] += 1
        return st

    def op_load(self, w, v, S, s, k):
        f = self.fname(w, s)
        kind = s["kind"]
        h = S["files"].get(f)
        if h is None or f in S["dirty"]:
            return "none"

        def load():
            if kind in ("simple", "solid", "tan", "field"):
                with open(f) as i:
                    return cls(kind).fromjson(i.read())
            if s["seed"] % 2 and hasattr(cls(kind), "read"):
                return cls(kind).read(f)
            if kind in ("fvc", "fvcfix") and s["seed"] % 3 == 0:
                import desimeter.transform.fvc2fp as m
                return m.read_jsonfile(f)
            return cls(kind).read_jsonfile(f)
        f0 = sum(w.fired.values())
        st, tx = w.call(S["proc"], load)
        hit = sum(w.fired.values()) > f0
        if st != "ok":
            if not hit and None not in h["may"]:
                v.add("load-failed", "%s saved with success is not read: %s" % (kind, read_exc(tx) if st == "exc" else tx))
            w.probe("reported" if hit else "refused")
            return st
        f0 = sum(w.fired.values())
        st, val = w.call(S["proc"], lambda: tx.tojson())
        if st != "ok":
            if sum(w.fired.values()) == f0:
                v.add("failed", "json of the loaded %s: %s %s" % (kind, st, read_exc(val) if st == "exc" else val))
            return st
        if h.get("raw") is not None:
            m = [None]
            pts, ans = h["raw"]
        else:
            m = [t for t in h["may"] if t is not None and json.loads(t) == json.loads(val)]
            if not m:
                v.add("other-transform", "%s read from a file is none of those saved there" % kind)
                return "bad"
            pts, ans = h["made"][m[0]]
        st, got = w.call(S["proc"], lambda: evaluate(kind, tx, pts))
        if st != "ok":
            if sum(w.fired.values()) == f0:
                v.add("failed", "loaded %s: %s %s" % (kind, st, read_exc(got) if st == "exc" else got))
            return st
        d = differ(got, ans, 0.0 if h.get("raw") is None else 1e-9)
        if d:
            v.add("changed-by-restart", "%s read back: %s" % (kind, d))
        w.probe("loaded")
        S["n"] += 1
        S["held"][(kind, s["slot"])] = (tx, pts, got, val)
        return st

    def op_bad(self, w, v, S, s, k):
        """Files of another class, another version, without a parameter, or cut are refused."""
        r = random.Random("bad/%d" % s["seed"])
        kind = s["kind"]
        fn, _ = self.make(kind, s["seed"] % 7)
        try:
            txt = self.text(w, kind, s["seed"] % 7)
        except Exception as e:
            return "none"
        if txt is None:
            return "none"
        d = json.loads(txt)
        how = r.choice(["truncated", "missing_key", "unknown", "unknown", "other"])
        if how == "truncated":
            b = txt[:r.randrange(len(txt) - 1)]
        elif how == "missing_key":
            opt = {"precession", "aberration", "polar_misalignment", "xfvc_scale", "yfvc_scale", "xfvc_offset", "yfvc_offset",
                   "meandistance", "mediandistance", "rmsdistance", "nmatch" if kind in ("fvc", "fvcfix") else ""}
            d.pop(r.choice([q for q in sorted(d) if q not in opt]))
            b = json.dumps(d)
        elif how == "unknown":
            d[r.choice([q for q in ("name", "method", "version") if q in d])] = r.choice(["3", "Something", "22"])
            b = json.dumps(d)
        else:
            o = r.choice([q for q in ("simple", "tan", "fvc", "dm2pm", "ray", "field") if cls(q) is not cls(kind)])
            b = self.text(w, o, s["seed"] % 7)
            if b is None:
                return "none"
        f = w.put(w.path("work", "bad%d.json" % k), b.encode())

        def load():
            with open(f) as i:
                return cls(kind).fromjson(i.read())
        f0 = sum(w.fired.values())
        st, val = w.call(S["proc"], load)
        if st == "ok":
            v.add("accepted", "%s is read from a file which is not one (%s)" % (kind, how))
        elif st == "exc" and sum(w.fired.values()) == f0:
            w.probe("refused")
            if how in ("truncated", "missing_key", "unknown"):
                w.probe(how)
        S["n"] += 1
        return st

    def text(self, w, kind, seed):
        """JSON of a transform made in a process of its own, without faults."""
        if (kind, seed) not in DATA:
            fl, w.faults = w.faults, []
            try:
                st, val = w.call(w.new_process("t"), lambda: self.make(kind, seed)[0]().tojson())
            finally:
                w.faults = fl
            if st != "ok":
                return None
            return val
        return DATA[(kind, seed)]

    def op_legacy(self, w, v, S, s, k):
        """Files written by previous releases."""
        r = random.Random("legacy/%d" % s["seed"])
        kind = s["kind"]
        if kind not in ("fvc", "fvcfix", "field", "dm2pm", "ray"):
            return "none"
        pts = sample(kind, r)
        if kind in ("fvc", "fvcfix"):
            d = {"method": "Zhao-Burge", "version": r.choice(["1", "2"]), "scale": 1.0 + r.gauss(0, 0.01), "rotation": r.uniform(-3.1, 3.1),
                 "offset_x": r.gauss(0, 0.01), "offset_y": r.gauss(0, 0.01)}
            ids = [2, 5, 6, 9, 20, 28, 29, 30]
            if d["version"] == "2":
                ids = r.sample(range(33), r.choice([4, 9]))
                d["zbpolids"] = ids
                if r.random() < 0.5:
                    d.update(xfvc_scale=-3000.0 + r.choice([0, 50]), yfvc_scale=3000.0 + r.choice([0, 70]), xfvc_offset=3000.0 + r.choice([0, 30]), yfvc_offset=3000.0 - r.choice([0, 30]))
            d["zbcoeffs"] = [r.gauss(0, 1e-3) for _ in ids]
        elif kind == "field":
            d = json.loads(self.text(w, kind, s["seed"] % 11))
            for q in ("precession", "aberration", "polar_misalignment"):
                d.pop(q)
        elif kind == "dm2pm":
            ids = r.sample(range(33), 6)
            d = {"method": "Zhao-Burge", "version": "1", "zbpolids": ids, "dm2pm_zbcoeffs": [r.gauss(0, 1e-5) for _ in ids], "pm2dm_zbcoeffs": [r.gauss(0, 1e-5) for _ in ids]}
        else:
            d = self.ray_params(r, False)
        txt = json.dumps(d)
        ans = evaluate(kind, reference(kind, txt), pts)
        f = w.put(self.fname(w, s), txt.encode())
        S["files"][f] = {"kind": kind, "may": {txt}, "made": {}, "raw": (pts, ans)}
        S["dirty"].discard(f)
        st = self.op_load(w, v, S, s, k)
        S["held"].pop((kind, s["slot"]), None)
        if st == "ok":
            w.probe("legacy")
        S["files"].pop(f)
        S["dirty"].add(f)
        return st

    def op_script(self, w, v, S, s, k):
        """fit_raytrace_tan2fp on simulated rays."""
        r = random.Random("script/%d" % s["seed"])
        default = r.random() < 0.1
        if default:       # the shipped ray traces and their shipped fit
            t = self.rays
            args = []
        else:
            t = self.ray_table(self.ray_params(r, True), r)
            cols = list(t)
            args = ["-i", w.put(w.path("work", "rays%d.csv" % k), (",".join(cols) + "\n" + "".join(
                ",".join(repr(t[c][i]) for c in cols) + "\n" for i in range(len(t["ADC1"])))).encode())]
        out = self.fname(w, dict(s, kind="rayfit"))
        f0 = sum(w.fired.values())
        st, val = w.run_script(w.new_process("ray%d" % k), "fit_raytrace_tan2fp", args + ["-o", out] + (["--test"] if r.random() < 0.5 and not default else []))
        hit = sum(w.fired.values()) > f0
        code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
        h = S["files"].setdefault(out, {"kind": "rayfit", "may": set(), "made": {}})
        if code:
            if not hit:
                v.add("failed", "fit_raytrace_tan2fp: %s %s" % (st, read_exc(val) if st == "exc" else val))
            w.probe("reported")
            S["files"].pop(out)
            S["dirty"].add(out)
            return "reported"
        b = w.durable(out)
        try:
            ref = reference("rayfit", b.decode())
        except Exception as e:
            v.add("incomplete-output", "fit_raytrace_tan2fp ends with status 0 and %s" % read_exc(e))
            return "bad"
        bad = self.ray_check(ref, t) if not default else differ(evaluate("ray", ref, self.shipped[0]), self.shipped[1], 1e-9)
        if bad:
            v.add("bad-fit", "fit_raytrace_tan2fp%s: %s" % (" of the shipped rays" if default else "", bad))
        if default:
            w.probe("shipped")
        w.probe("script")
        S["n"] += 1
        txt = b.decode()
        pts = sample("rayfit", r)
        h.pop("raw", None)
        h["may"] = {txt}
        h["made"][txt] = (pts, evaluate("rayfit", ref, pts))
        h["raw"] = h["made"][txt]
        S["files"][out] = h
        S["dirty"].discard(out)
        return "ok"


PROP = P()
