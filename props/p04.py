"""P04  calibration of the FVC transform: circles of turning positioners, then the transform from their centres."""
import copy
import csv
import io
import json
import math
import os
import random
import warnings

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder
from dref.fvc2fp import FVC2FP
from dref.io import DATA as REFDATA
from dref.pos2ptl import ptl2flat
from dref.ptl2fp import fp2ptl
from dref.xy2qs import xy2uv, uv2xy
from dref.zhaoburge import getZhaoBurgeTerm

STATS = []
POLIDS = [None, None, "0,1,2,3,4,5,6,9,20,27,28,29,30", "27,0,1,2,3,9,4,5,6,20,28,29,30", "0:31", "0,1,2,3..7,9,20,27-31", "0:7,9,20,27,28,29,30,31"]


def ids(s):
    out = []
    for q in (s or POLIDS[2]).split(","):
        for sep in (":", "..", "-"):
            if sep in q:
                a, b = q.split(sep)
                out += list(range(int(a), int(b)))
                break
        else:
            out.append(int(q))
    return out


class Sky:
    """The true instrument of a plan: devices, transforms, what each one does."""

    def __init__(self, plan, rows):
        r = random.Random("p04/%d" % plan["seed"])
        g = np.random.RandomState(plan["seed"] % (1 << 31))
        self.t0 = FVC2FP.read_jsonfile(os.path.join(REFDATA, "init-fvc2fp.json"))
        t = self.tx = copy.deepcopy(self.t0)
        a = plan["amp"]
        t.scale *= 1 + a * g.uniform(-7e-4, 7e-4)
        t.rotation += a * g.uniform(-7e-4, 7e-4)
        t.offset_x += a * g.uniform(-4e-4, 4e-4)
        t.offset_y += a * g.uniform(-4e-4, 4e-4)
        t.zbcoeffs = t.zbcoeffs + a * g.normal(0, 3e-5, len(t.zbcoeffs))
        pos = [m for m in rows if m["DEVICE_TYPE"] == "POS"]
        fid = [m for m in rows if m["DEVICE_TYPE"] in ("FIF", "GIF")]
        zero = [m for m in pos if int(m["LOCATION"]) in (0, 1000)]
        dev = zero + r.sample([m for m in pos if m not in zero], plan["npos"] - len(zero))
        dev += fid[:plan["npin"]] if plan["npin"] < len(fid) else fid
        self.dev = []
        seen = set()
        for m in dev:
            p = m["DEVICE_TYPE"] == "POS"
            pin = 0 if p else int(m["PINHOLE_ID"])
            if not p and plan["bigpin"] and pin == 4:
                pin = r.choice([11, 25, 99])
            if (m["LOCATION"], pin) in seen:
                continue
            seen.add((m["LOCATION"], pin))
            kind = "turn"
            if p:
                kind = r.choices(["turn", "stuck", "few", "off", "small", "arc", "part", "wide"], [1, .03, .04, .02, .02, .08, .05, .02])[0]
            self.dev.append({"loc": int(m["LOCATION"]), "pin": pin, "id": m["DEVICE_ID"], "ptl": int(m["PETAL_LOC"]), "kind": kind,
                             "x": float(m["X_FP"]), "y": float(m["Y_FP"]), "r": r.uniform(1.5, 4.0), "phase": r.uniform(0, 360)})
        d = self.dev
        x = np.array([q["x"] for q in d])
        y = np.array([q["y"] for q in d])
        self.pix = self.tx.fp2fvc(x, y)                        # true pixels of the centres
        self.mx, self.my = self.t0.fvc2fp(*self.pix)           # as measured with the present transform
        # metrology: wrong for a few devices
        self.ex, self.ey = x.copy(), y.copy()
        for k, q in enumerate(d):
            q["bad"] = plan["npos"] > 100 and plan["nbad"] and r.random() < plan["nbad"] and q["kind"] in ("turn", "arc", "part")
            if q["bad"]:
                b, s = r.uniform(0, 6.28), r.uniform(0.25, 0.5)
                if plan.get("along"):
                    b, s = plan["along"], 0.45
                self.ex[k] += s * math.cos(b)
                self.ey[k] += s * math.sin(b)
        self.ox, self.oy = self.ex.copy(), self.ey.copy()      # the other metrology table, right for the misplaced devices
        for k, q in enumerate(d):
            if q["kind"] == "off":
                self.ex[k] += r.choice([-4.5, 4.5])
        # positions in every exposure
        n = len(plan["exps"])
        self.meas = {}
        u0, v0 = xy2uv(self.mx, self.my)
        for k, q in enumerate(d):
            if q["pin"] == 0:
                R = {"small": 0.4, "wide": 7.5}.get(q["kind"], q["r"])
                arc = 360 * (1 - 1.0 / n)
                if q["kind"] == "arc":
                    arc = 180
                a = np.linspace(0, arc, n) + q["phase"]
                if q["kind"] == "stuck":
                    a = np.full(n, q["phase"])
                if plan["order"] == "random":
                    r.shuffle(a)
                q["angles"] = a
                u = u0[k] + R * np.cos(np.radians(a))
                w = v0[k] + R * np.sin(np.radians(a))
                xx, yy = uv2xy(u, w)
            else:
                xx, yy = np.full(n, self.mx[k]), np.full(n, self.my[k])
            xx = np.round(xx + plan["noise"] * g.normal(size=n), 6)
            yy = np.round(yy + plan["noise"] * g.normal(size=n), 6)
            keep = np.array([r.random() >= e["drop"] for e in plan["exps"]])
            if q["kind"] == "few":
                keep[r.randint(2, 5):] = False
            zero = np.array([r.random() < e["zero"] for e in plan["exps"]])      # listed without a measurement
            dup = np.array([r.random() < e["dup"] for e in plan["exps"]])
            if q["kind"] == "part":
                zero[:] = True
                zero[:r.randint(0, 5)] = False
            self.meas[k] = (xx, yy, keep, zero & keep, dup & keep)

    def table(self, i, e, plan):
        """The CSV file of an exposure."""
        r = random.Random("exp/%d/%d" % (plan["seed"], i))
        out = []
        for k, q in enumerate(self.dev):
            xx, yy, keep, zero, dup = self.meas[k]
            if not keep[i]:
                continue
            x, y = (0., 0.) if zero[i] else (xx[i], yy[i])
            out.append([q["loc"], q["pin"], x, y, self.ex[k], self.ey[k], q["id"]])
            if dup[i]:
                out.append([q["loc"], q["pin"], x + 1.2, y - 0.7, self.ex[k], self.ey[k], q["id"]])
        for _ in range(e["stray"]):
            out.append([-1, r.choice([0, 0, 3]), r.uniform(-300, 300), r.uniform(-300, 300), 0., 0., ""])
        r.shuffle(out)
        cols = ["LOCATION", "PINHOLE_ID", "X_FP", "Y_FP", "X_FP_EXP", "Y_FP_EXP", "DEVICE_ID"]
        o = list(range(len(cols)))
        r.shuffle(o)
        s = io.StringIO()
        c = csv.writer(s, lineterminator="\n")
        c.writerow([cols[j] for j in o])
        for row in out:
            c.writerow([repr(float(row[j])) if isinstance(row[j], (float, np.floating)) else row[j] for j in o])
        return s.getvalue().encode()

    def expect(self, k, exps, plan):
        """Circle of device k from exposures: (must be listed, may be listed, x, y, error)."""
        q = self.dev[k]
        xx, yy, keep, zero, dup = self.meas[k]
        sel = [i for i in exps if keep[i] and not dup[i] and not zero[i]]
        n = len(sel)
        if n < 6 or q["kind"] == "off":
            return False, False, 0, 0, 0
        if q["pin"]:
            return True, True, np.median(xx[sel]), np.median(yy[sel]), 1e-5
        if q["kind"] in ("stuck", "small"):
            return False, False, 0, 0, 0
        a = np.radians(q["angles"][sel])
        J = np.array([np.cos(a), np.sin(a), np.ones(n)]).T
        A = J.T.dot(J)
        w = np.linalg.eigvalsh(A)
        if w[0] < 0.05 * n:                     # a short part of the circle is left
            return False, True, 0, 0, 1e9
        if q["kind"] == "wide":                 # no positioner turns with such a radius
            return False, False, 0, 0, 0
        c = np.linalg.inv(A)
        # duplicates of an exposure given twice do not add information
        return True, True, self.mx[k], self.my[k], plan["noise"] * math.sqrt(max(c[0, 0], c[1, 1]) * n / len(set(sel)))


class P(Prop):
    id = "P04"
    rule = ("one case = one simulated instrument whose positioners turn around their centres through a series of exposures with lost, double, "
            "unmatched and stuck spots; then desi_fit_circles and the fits of the FVC transform under disk faults; non-trivial = a table of "
            "circles or a transform was compared")
    state_measure = "(number of devices, of exposures, noise, order, command, options, faults, outcome)"
    real = ["bin/desi_fit_circles", "circles", "bin/desi_fit_fvc2fp_using_theta_centers", "bin/desi_fit_fvc2fp_using_posparams", "FVC2FP",
            "zhaoburge", "xy2qs", "ptl2fp", "pos2ptl", "util.parse_fibers"]
    stubs = ["positioners and camera", "disk faults", "process deaths", "clock"]
    assumptions = ["positioners turn by at least 180 degrees", "the present transform is right within 1.5 mm"]
    must_probe = ["circles", "transform", "posparams", "patch", "stuck", "few", "off", "small", "arc", "dup", "zero", "bigpin", "loc0", "outlier",
                  "othermetro", "two", "badpol", "reported", "enospc", "eio", "crash", "flags", "static", "overwrite", "part", "random"]
    tiers = {"quick": {"runs": 500, "cap_s": 60, "run_timeout": 100, "min_s": 40},
             "thorough": {"runs": 20000, "cap_s": 1500, "run_timeout": 100, "min_s": 120}}

    def setup(self, base):
        install_finder()
        for n in ("astropy.table", "astropy.io.ascii", "scipy.optimize", "yaml", "matplotlib.pyplot"):
            __import__(n)
        self.dd = os.path.join(base, "p04data")
        I.make_datadir(self.dd)
        with open(os.path.join(REFDATA, "fp-metrology.csv"), newline="") as f:
            self.rows = list(csv.DictReader(f))

    def gen(self, seed, tier):
        r = random.Random("p04gen/%d" % seed)
        n = r.choice([5, 6, 7, 8, 8, 10, 12, 12, 16])
        exps = []
        lossy = r.random() < 0.5
        for k in range(n):
            exps.append({"drop": r.choice([0, 0.03, 0.15]) if lossy else 0, "dup": r.choice([0, 0, 0.02]), "zero": r.choice([0, 0, 0, 0.05]),
                         "stray": r.choice([0, 0, 2, 15])})
        steps = []
        for _ in range(r.randint(1, 3)):
            steps.append({"op": r.choice(["circles", "circles", "theta", "theta", "pos"]), "s": r.randrange(1 << 20),
                          "pol": r.choice(POLIDS), "badpol": r.random() < 0.06, "other": r.random() < 0.3, "two": r.random() < 0.3,
                          "sub": r.choice(["all", "all", "shuffle", "part", "repeat"]), "same": r.random() < 0.3, "patch": r.random() < 0.4,
                          "static": r.random() < 0.5, "flags": r.random() < 0.5, "maxrms": r.choice([None, None, 0.005, 0.05])})
        faults = []
        if r.random() < 0.4:
            for _ in range(r.randint(1, 2)):
                k = r.choice(["enospc", "eio", "short", "emfile", "crash", "torn"])
                faults.append({"kind": k, "at": r.randrange(r.choice([1, 4, 9, 20])), "frac": round(r.random(), 3), "once": True,
                               "ops": {"enospc": ["write", "open_w"], "short": ["write"], "torn": ["write"], "emfile": ["open_r", "open_w"],
                                       "eio": r.choice([["open_r"], ["write"]]), "crash": ["write", "open_w", "open_r"]}[k]})
        return {"seed": seed, "np_seed": r.randrange(1 << 31), "exps": exps, "npos": r.choice([60, 150, 250, 400]), "npin": r.choice([0, 60, 500]),
                "bigpin": r.random() < 0.3, "amp": r.choice([0, 0.3, 1, 1]), "noise": r.choice([0, 0.001, 0.003, 0.01]),
                "nbad": r.choice([0, 0, 0.01, 0.03, 0.1]),
                "along": r.choice([None, 0.8, 2.5]), "order": r.choice(["sorted", "random"]), "steps": steps, "faults": faults,
                "_lists": ["steps", "faults"]}

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        self.data = w.use_data(self.dd)
        sky = Sky(plan, self.rows)
        names = []
        for i, e in enumerate(plan["exps"]):
            names.append(w.put(w.path("work", "in", "fvc %d.csv" % i), sky.table(i, e, plan)))
        for k, q in enumerate(sky.dev):
            if q["kind"] not in ("turn",):
                w.probe(q["kind"])
            if q["loc"] == 0:
                w.probe("loc0")
            if q["pin"] > 9:
                w.probe("bigpin")
            if sky.meas[k][3].any():
                w.probe("zero")
            if sky.meas[k][4].any():
                w.probe("dup")
            if q["bad"]:
                w.probe("outlier")
        if plan["order"] == "random":
            w.probe("random")
        w.install()
        w.faults = faults
        n = 0
        self.last = None
        try:
            for ns, s in enumerate(plan["steps"]):
                if v:
                    break
                n += getattr(self, s["op"])(w, v, plan, sky, s, ns, names)
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=len(plan["steps"]), evals=n)

    def script(self, w, v, plan, s, ns, name, argv, what, must_fail=False):
        """Run a command: True if it reports success and should."""
        f0 = sum(w.fired.values())
        st, val = w.run_script(w.new_process("%s%d" % (s["op"], ns)), name, argv)
        code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
        hit = sum(w.fired.values()) > f0
        w.state(len(plan["exps"]), plan["npos"], plan["noise"], plan["order"], s["op"], bool(s["pol"]), s["other"], sorted(w.fired), code)
        if code:
            if hit:
                w.probe("reported")
            elif not must_fail:
                v.add("failed", "%s: %s %s" % (what, st, read_exc(val) if st == "exc" else val))
            return False
        if must_fail:
            v.add("no-error", "%s: status 0" % what)
            return False
        return True

    # ------------------------------------------------------------------ circles
    def circles(self, w, v, plan, sky, s, ns, names):
        r = random.Random(s["s"])
        order = list(range(len(names)))
        if s["sub"] == "shuffle":
            r.shuffle(order)
        elif s["sub"] == "part":
            order = sorted(r.sample(order, max(1, len(order) - r.randint(1, 3))))
        elif s["sub"] == "repeat":
            order.append(r.choice(order))
        out = w.path("work", "circles.csv" if s["same"] else "circles%d.csv" % ns)
        if s["same"] and w.durable(out) is not None:
            w.probe("overwrite")
        what = "desi_fit_circles of %d exposures (%s, noise %g)" % (len(order), s["sub"], plan["noise"])
        if not self.script(w, v, plan, s, ns, "desi_fit_circles", ["-i"] + [names[i] for i in order] + ["-o", out], what):
            return 0
        b = w.durable(out)
        if b is None:
            v.add("no-output", what)
            return 0
        try:
            got = {}
            for q in csv.DictReader(io.StringIO(b.decode())):
                key = (int(q["LOCATION"]), int(q["PINHOLE_ID"]))
                if key in got:
                    v.add("twice", "%s: LOCATION %d PINHOLE_ID %d" % ((what,) + key))
                    return 1
                got[key] = [float(q[c]) for c in ("X_FP_METRO", "Y_FP_METRO", "X_FP", "Y_FP")]
        except Exception as e:
            v.add("unreadable", "%s: %s" % (what, read_exc(e)))
            return 1
        w.probe("circles")
        zs = []
        for k, q in enumerate(sky.dev):
            must, may, x, y, e = sky.expect(k, order, plan)
            key = (q["loc"], q["pin"])
            g = got.pop(key, None)
            txt = "%s: LOCATION %d PINHOLE_ID %d (%s)" % ((what,) + key + (q["kind"],))
            if g is None:
                if must:
                    v.add("missing", "%s is not in the table" % txt)
                    return 1
                continue
            if not may:
                v.add("not-a-circle", "%s is in the table with %s" % (txt, g))
                return 1
            if abs(g[0] - sky.ex[k]) > 1e-6 or abs(g[1] - sky.ey[k]) > 1e-6:
                v.add("wrong-metrology", "%s: metrology %.4f %.4f, expected %.4f %.4f" % (txt, g[0], g[1], sky.ex[k], sky.ey[k]))
                return 1
            if must:
                d = max(abs(g[2] - x), abs(g[3] - y))
                if plan["noise"] and not q["pin"]:
                    zs.append(d / e)
                if d > 6 * e + 1.5e-3:
                    v.add("wrong-centre", "%s: centre %.4f %.4f, expected %.4f %.4f (error %.4f)" % (txt, g[2], g[3], x, y, e))
                    return 1
        if got:
            v.add("unknown-device", "%s: %s in the table" % (what, sorted(got)[:3]))
            return 1
        if zs:
            STATS.append(("z", max(zs)))
        self.last = b
        return 1

    # ------------------------------------------------------------------ transforms
    def good(self, sky, noise, x, y, use, pol):
        """Least-squares error of a fitted transform at the devices."""
        X, Y = self_reduce(sky, use)
        H = []
        for p in pol:
            a, b, _ = getZhaoBurgeTerm(p, X, Y)
            H.append(np.concatenate([a * np.ones(len(X)), b * np.ones(len(X))]))
        H = np.array(H).T
        Q, R = np.linalg.qr(H)
        return noise * np.sqrt((Q ** 2).sum(axis=1)).max()

    def contaminated(self, sky, use, pol):
        """Whether the devices with a wrong metrology can hide in the first fit, or make it reject others."""
        bad = np.array([bool(sky.dev[k]["bad"]) for k in use])
        if not bad.any():
            return False
        X, Y = self_reduce(sky, use)
        H = []
        for p in pol:
            a, b, _ = getZhaoBurgeTerm(p, X, Y)
            H.append(np.concatenate([a * np.ones(len(X)), b * np.ones(len(X))]))
        Q, R = np.linalg.qr(np.array(H).T)
        s = np.concatenate([np.where(bad, sky.ox[use] - [sky.dev[k]["x"] for k in use], 0),
                            np.where(bad, sky.oy[use] - [sky.dev[k]["y"] for k in use], 0)])
        e = s - Q.dot(Q.T.dot(s))
        n = len(use)
        e = np.hypot(e[:n], e[n:])
        return bool((e[bad] < 0.12).any() or (e[~bad] > 0.05).any())

    def judge_tx(self, w, v, sky, plan, b, use, noise, pol, what):
        """The transform maps the true pixels to the metrology."""
        try:
            d = json.loads(b.decode())
            tx = FVC2FP.fromjson(b.decode())
        except Exception as e:
            v.add("unreadable", "%s: %s" % (what, read_exc(e)))
            return 1
        if sorted(d["zbpolids"]) != sorted(pol) or len(d["zbcoeffs"]) != len(pol):
            v.add("polynomials", "%s: %s, requested %s" % (what, d["zbpolids"], pol))
            return 1
        ok = [k for k in use if not sky.dev[k]["bad"]]
        if len(ok) < 45:
            return 0
        e = self.good(sky, noise, None, None, ok, pol)
        px, py = sky.pix[0][ok], sky.pix[1][ok]
        x, y = tx.fvc2fp(px, py)
        d = np.hypot(x - np.array([sky.dev[k]["x"] for k in ok]), y - np.array([sky.dev[k]["y"] for k in ok]))
        if self.contaminated(sky, use, pol):
            w.probe("contaminated")
            return 1
        STATS.append(("tx", d.max() / (8 * e + 1.5e-2), len(ok), len(pol)))
        if not d.max() < 8 * e + 1.5e-2:
            v.add("wrong-transform", "%s: %d devices, residual max %.4f median %.4f mm (expected error %.4f mm)" % (what, len(ok), d.max(), np.median(d), e))
        # and back, everywhere on the focal plane
        bx, by = tx.fp2fvc(x, y)
        if not np.hypot(bx - px, by - py).max() < 1e-3:
            v.add("inverse", "%s: %.4f pixels" % (what, np.hypot(bx - px, by - py).max()))
        return 1

    def theta(self, w, v, plan, sky, s, ns, names):
        """The transform from circles."""
        r = random.Random(s["s"])
        rows = []
        noise = 1e-6
        if self.last is not None:
            at = {(q["loc"], q["pin"]): k for k, q in enumerate(sky.dev)}
            for q in csv.DictReader(io.StringIO(self.last.decode())):
                k = at[int(q["LOCATION"]), int(q["PINHOLE_ID"])]
                e = sky.expect(k, range(len(names)), plan)
                if e[4] < 1e3:
                    rows.append((k, float(q["X_FP"]), float(q["Y_FP"])))
            noise = plan["noise"] * 1.2
        else:
            for k, q in enumerate(sky.dev):
                rows.append((k, sky.mx[k], sky.my[k]))
        other = None
        ex, ey = sky.ox.copy(), sky.oy.copy()
        if s["other"]:
            w.probe("othermetro")
            t = [["LOCATION", "PINHOLE_ID", "X_FP", "Y_FP", "NOTES"]]
            for k, q in enumerate(sky.dev):
                t.append([q["loc"], q["pin"], repr(float(sky.ox[k])), repr(float(sky.oy[k])), "a"])
            t[1:] = r.sample(t[1:], len(t) - 1)
            other = w.put(w.path("work", "other metrology.csv"), "\n".join(",".join(map(str, q)) for q in t).encode() + b"\n")
            ex, ey = ex + 0.3 + 1e-3 * ex, ey - 0.2
        parts = [rows]
        if s["two"]:
            w.probe("two")
            c = r.randrange(len(rows) + 1)
            r.shuffle(rows)
            parts = [q for q in (rows[:c], rows[c:]) if q]
        files = []
        for j, p in enumerate(parts):
            t = ["LOCATION,PINHOLE_ID,X_FP_METRO,Y_FP_METRO,X_FP,Y_FP"]
            t += ["%d,%d,%r,%r,%r,%r" % (sky.dev[k]["loc"], sky.dev[k]["pin"], float(ex[k]), float(ey[k]), float(x), float(y)) for k, x, y in p]
            files.append(w.put(w.path("work", "in", "centres %d.csv" % j), ("\n".join(t) + "\n").encode()))
        if len(rows) < 45:
            return 0
        out = w.path("work", "tx.json" if s["same"] else "tx%d.json" % ns)
        a = ["-i"] + files + ["-o", out]
        pol = s["pol"]
        if s["badpol"]:
            w.probe("badpol")
            pol = "0,1,2,3,9"
        if pol:
            a += ["--zbpolids", pol]
        if other:
            a += ["--other-metrology", other]
        what = "desi_fit_fvc2fp_using_theta_centers of %d devices (%s)" % (len(rows), " ".join(os.path.basename(q) for q in a if q not in files))
        if not self.script(w, v, plan, s, ns, "desi_fit_fvc2fp_using_theta_centers", a, what, s["badpol"]):
            return 0
        b = w.durable(out)
        if b is None:
            v.add("no-output", what)
            return 0
        w.probe("transform")
        return self.judge_tx(w, v, sky, plan, b, [q[0] for q in rows], noise, ids(pol), what)

    def pos(self, w, v, plan, sky, s, ns, names):
        """The transform from the offsets of posparams."""
        r = random.Random(s["s"])
        g = np.random.RandomState(s["s"])
        lim = 0.02 if s["maxrms"] is None else s["maxrms"]
        rows, use = [], []
        nbad, far = r.choice([(0.1, 0.9), (0.4, 0.055)])
        for k, q in enumerate(sky.dev):
            if q["pin"]:
                continue
            x, y, _ = fp2ptl(q["ptl"], sky.mx[k:k + 1], sky.my[k:k + 1])
            x, y = ptl2flat(x, y)
            x, y = x[0] + plan["noise"] * g.normal(), y[0] + plan["noise"] * g.normal()
            flag, err = 0, lim * r.uniform(0, 0.95)
            if s["flags"] and r.random() < nbad:
                flag, x = r.choice([1, 4]), x + far
            elif s["static"] and r.random() < nbad:
                err, y = lim * r.uniform(1.02, 4), y + far
            else:
                use.append(k)
            rows.append([q["id"], repr(float(x)), repr(float(y)), flag, "%.6f" % err])
        cols = ["POS_ID", "OFFSET_X", "OFFSET_Y", "FLAGS", "FIT_ERROR_STATIC"]
        if s["static"]:
            w.probe("static")
            cols[1:3] = ["OFFSET_X_STATIC", "OFFSET_Y_STATIC"]
        n = 5
        if not s["static"]:
            n = 4
        else:
            w.probe("static")
        keep = [0, 1, 2] + ([3] if s["flags"] else []) + ([4] if s["static"] else [])
        if s["flags"]:
            w.probe("flags")
        if s["maxrms"] is not None and not s["static"]:
            pass
        r.shuffle(rows)
        c = r.randrange(1, len(rows)) if s["two"] else len(rows)
        files = []
        for j, p in enumerate(q for q in (rows[:c], rows[c:]) if q):
            t = [",".join(cols[i] for i in keep)] + [",".join(str(q[i]) for i in keep) for q in p]
            files.append(w.put(w.path("work", "in", "posparams %d.csv" % j), ("\n".join(t) + "\n").encode()))
        other = w.put(w.path("work", "pos metrology.csv"), ("\n".join(
            ["PETAL_LOC,DEVICE_ID,X_FP,Y_FP"] + ["%d,%s,%r,%r" % (q["ptl"], q["id"], float(sky.ox[k]), float(sky.oy[k]))
                                                 for k, q in enumerate(sky.dev) if not q["pin"]]) + "\n").encode())
        # the default metrology is that of the files; a wrong entry needs the other one
        usedef = not s["other"] and not any(q["bad"] for q in sky.dev)
        if not usedef:
            w.probe("othermetro")
        out = w.path("work", "ptx.json" if s["same"] else "ptx%d.json" % ns)
        a = ["-i"] + files + ["-o", out]
        pol = s["pol"]
        if s["badpol"]:
            w.probe("badpol")
            pol = "1,2,27"
        if pol:
            a += ["--zbpolids", pol]
        if not usedef:
            a += ["--other-metrology", other]
        if s["maxrms"] is not None:
            a += ["--max-fit-rms", str(s["maxrms"])]
        patch = None
        if s["patch"]:
            patch = w.path("work", "patch %d.csv" % ns)
            a += ["--output-metrology-patch", patch]
            pr = [(r.randrange(1, 10) * 1000 + 500 + i, r.uniform(-300, 300), r.uniform(-280, 280)) for i in range(30)]
            w.put(os.path.join(self.data, "fp-metrology-patch.csv"),
                  ("LOCATION,X_FP,Y_FP,PROVENANCE\n" + "".join("%d,%r,%r,p%d\n" % (q + (i,)) for i, q in enumerate(pr))).encode())
        what = "desi_fit_fvc2fp_using_posparams of %d devices (%s)" % (len(rows), " ".join(os.path.basename(q) for q in a if q not in files))
        if not self.script(w, v, plan, s, ns, "desi_fit_fvc2fp_using_posparams", a, what, s["badpol"]):
            return 0
        b = w.durable(out)
        if b is None:
            v.add("no-output", what)
            return 0
        w.probe("posparams")
        self.judge_tx(w, v, sky, plan, b, use, max(plan["noise"], 3e-4), ids(pol), what)
        if patch and not v:
            w.probe("patch")
            try:
                got = list(csv.DictReader(io.StringIO(w.durable(patch).decode())))
                tx = FVC2FP.fromjson(b.decode())
                x, y = tx.fvc2fp(*sky.t0.fp2fvc(np.array([q[1] for q in pr]), np.array([q[2] for q in pr])))
                for i, q in enumerate(pr):
                    if (int(got[i]["LOCATION"]), got[i]["PROVENANCE"]) != (q[0], "p%d" % i) or len(got) != len(pr):
                        v.add("patch-row", "%s: row %d" % (what, i))
                        break
                    if math.hypot(float(got[i]["X_FP"]) - x[i], float(got[i]["Y_FP"]) - y[i]) > 1e-4:
                        v.add("patch-wrong", "%s: row %d at %s %s, expected %.4f %.4f" % (what, i, got[i]["X_FP"], got[i]["Y_FP"], x[i], y[i]))
                        break
            except Exception as e:
                v.add("patch-unreadable", "%s: %s" % (what, read_exc(e)))
        return 1


def self_reduce(sky, use):
    x, y = sky.tx.fvc2fp(sky.pix[0][use], sky.pix[1][use])
    return sky.tx._reduce_xyfp(x, y)


PROP = P()
