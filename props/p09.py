"""P09  Front illuminated images: the angle of each phi arm, and with it the knee of each positioner."""
import math
import os
import random
import shutil
import warnings

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.pool import PoolHang
from props.p01 import _desi_fvc_proc
from dsim.util import Viol, new_world, read_exc, install_finder, table_dict
import dref

PAD = 31
SIGMAS = (0.1, 0.2, 0.5, 1., 1.5)
COLS = ("ANGLE", "CCF", "MCCF", "RMSCCF", "MIMAGE", "NORM")
STATS = []


def wrap(deg):
    return (deg + 180.) % 360. - 180.


def paint(im, body, x, y, phi, amp):
    """Add an arm of which the fibre is at x,y and the knee in direction phi."""
    from scipy.ndimage import map_coordinates
    x0, y0 = int(round(x)) - 45, int(round(y)) - 45
    x1, y1 = max(0, x0), max(0, y0)
    x2, y2 = min(im.shape[1], x0 + 91), min(im.shape[0], y0 + 91)
    yy, xx = np.mgrid[y1:y2, x1:x2]
    c, s = math.cos(phi + math.pi / 2), math.sin(phi + math.pi / 2)
    u, v = c * (xx - x) + s * (yy - y), -s * (xx - x) + c * (yy - y)
    im[y1:y2, x1:x2] += amp * map_coordinates(body, [v + PAD, u + PAD], order=1, cval=0)


class P(Prop):
    id = "P09"
    rule = ("one case = simulated front illuminated images with drawn phi arms, measured by detect_phi_arms alone and in a simulated pool of processes, "
            "in several row orders and subsets, and by analyze_bright_image with the back illuminated exposure of the same focal plane, under disk faults "
            "and deaths of workers; non-trivial = an angle was compared with the one drawn")
    state_measure = "(entry point, arms, processes, step, data type, extension, background, faults, outcome)"
    real = ["py/desimeter/brightimage.py", "bin/analyze_bright_image", "processfvc", "match", "fvc2fp", "ptl2fp", "xy2qs", "skimage", "fitsio"]
    stubs = ["positioner arms, camera and optics", "pool of processes", "disk faults", "process deaths"]
    assumptions = ["arms are in contrast (30 times the noise), 65 pixels apart and 32 pixels away from the border"]
    must_probe = ["alone", "pool", "script", "angle", "subset", "worker_killed", "no_image", "reported", "second_hdu", "flip", "scale", "knee", "table", "fine_step",
                  "coarse_step", "integer", "back_image", "blank", "dirt", "twice"]
    tiers = {"quick": {"runs": 400, "cap_s": 70, "run_timeout": 200, "min_s": 45},
             "thorough": {"runs": 12000, "cap_s": 1800, "run_timeout": 250, "min_s": 180}}

    def setup(self, base):
        install_finder()
        import fitsio
        for n in ("astropy.table", "astropy.io.ascii", "skimage.feature", "skimage.transform", "scipy.optimize", "scipy.spatial", "matplotlib.pyplot"):
            __import__(n)
        self.tfile = os.path.join(os.path.dirname(dref.__file__), "data", "fiber_arm_outline.fits")
        self.repo_t = os.path.join(I.REPODATA, "fiber_arm_outline.fits")
        self.outline = t = fitsio.read(self.tfile).astype(float)
        self.body = np.zeros_like(t)
        for k in range(len(t)):
            c = np.flatnonzero(t[k] > 0)
            if len(c):
                self.body[k, c[0]:c[-1] + 1] = 1
        xg, yg = np.mgrid[-PAD:PAD + 1, -PAD:PAD + 1]
        self.mask = xg ** 2 + yg ** 2 < PAD ** 2
        self.unit = t * self.mask / math.sqrt(np.sum((t * self.mask) ** 2))
        self.rot = {}
        self.inst = {}
        for k in range(3):
            i = self.inst["tiny%d" % k] = I.tiny(base, k)
            if os.path.exists(self.repo_t):
                shutil.copyfile(self.repo_t, os.path.join(i.datadir, "fiber_arm_outline.fits"))

    def gen(self, seed, tier):
        r = random.Random("p09gen/%d" % seed)
        steps = []
        if r.random() < 0.2:
            steps = [{"op": "script", "s": r.randrange(1 << 20), "nproc": r.choice([1, 1, 3]), "table": r.random() < 0.5, "template": r.random() < 0.3,
                      "dead": r.choice([0, 0.3, 0.6]), "image": r.random() < 0.5}]
        else:
            for _ in range(r.randint(1, 3)):
                steps.append({"op": "api", "s": r.randrange(1 << 20), "n": r.randint(1, 6), "nproc": r.choice([2, 3, 4, 6]), "step": r.choice([1., 1., 1., 0.5, 2., 2.5]),
                              "dtype": r.choice([">f4", ">f8", ">i4", ">i2"]), "hdu": r.choice([0, 0, 0, 1, 2, None]) if r.random() < 0.6 else 0,
                              "amp": r.choice([600, 3000, 9000]), "noise": r.choice([0, 0.005, 0.02]), "bg": r.choice([0, 500, 1500]), "flip": r.random() < 0.5,
                              "scale": r.random() < 0.4, "blank": r.choice([0, 0, 0, 1, 2]), "dirt": r.choice([0, 0, 1, 3]), "twice": r.random() < 0.3, "die": [r.randrange(6)] if r.random() < 0.2 else [],
                              "pool": {"seed": r.getrandbits(20), "eager": r.choice([0, 0.3, 0.9]), "cpu_count": 4}})
        faults = []
        if r.random() < 0.25:
            k = r.choice(["eio", "emfile", "crash", "enospc"])
            faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 8])), "frac": 0.5, "once": True,
                           "ops": {"eio": ["open_r"], "emfile": ["open_r"], "crash": ["open_r"], "enospc": ["write", "open_w"]}[k]})
        return {"seed": seed, "inst": r.choice(["tiny0", "tiny1", "tiny2"]), "steps": steps, "faults": faults, "_lists": ["steps", "faults"]}

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        inst = self.inst[plan["inst"]]
        w.use_data(inst.datadir)
        w.programs["desi_fvc_proc"] = _desi_fvc_proc
        w.install()
        n = 0
        api = w.new_process("api")
        try:
            w.faults = faults
            for ns, s in enumerate(plan["steps"]):
                if v:
                    break
                n += getattr(self, s["op"])(w, v, plan, inst, s, ns, api)
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=len(plan["steps"]), evals=n)

    # ---- the oracle
    def turned(self, ang):
        """The outline turned by ang degrees."""
        k = round(ang * 100)
        if k not in self.rot:
            from skimage.transform import rotate
            self.rot[k] = rotate(self.unit, -ang)
        return self.rot[k]

    def stamps(self, image, x, y):
        from skimage.feature import canny
        i, j = int(round(y)), int(round(x))
        s = image[i - PAD:i + PAD + 1, j - PAD:j + PAD + 1]
        z = (s - np.median(s)) / np.std(s)
        out = []
        for sg in SIGMAS:
            e = canny(z, sigma=sg).astype(float) * self.mask
            out.append(e / math.sqrt(np.sum(e ** 2)))
        return float(np.mean(s)), out

    def estimate(self, edges, step):
        """(angle, correlation, mean, rms) of the best of the edge maps: a scan by 5 degrees, then by `step` around the best."""
        best = None
        for e in edges:
            c = [float(np.sum(self.turned(a) * e)) for a in range(0, 360, 5)]
            a0 = 5. * int(np.argmax(c))
            f = np.arange(a0 - 10., a0 + 10. + step, step)
            cc = [float(np.sum(self.turned(a) * e)) for a in f]
            k = int(np.argmax(cc))
            if best is None or cc[k] > best[1]:
                best = (f[k], cc[k], float(np.mean(cc)), float(np.std(cc)))
        return best

    def verify(self, v, what, image, x, y, phi, step, got):
        """Checks of one row."""
        a, ccf, mccf, rms, mimg, norm = got
        if not all(map(math.isfinite, got)):
            v.add("not-finite", "%s: %s" % (what, got))
            return False
        err = abs(wrap(math.degrees(a - phi)))
        if err > 3.5 + step:
            v.add("angle", "%s: angle %.2f deg, drawn %.2f" % (what, math.degrees(a), math.degrees(phi)))
            return False
        mean, edges = self.stamps(image, x, y)
        e = self.estimate(edges, step)
        STATS.append(("row", err, ccf - e[1], abs(wrap(math.degrees(a) + 90 - e[0])), mccf - e[2], rms - e[3], mimg / mean - 1 if mean else 0))
        here = max(float(np.sum(self.turned(math.degrees(a) + 90) * q)) for q in edges)
        if abs(ccf - here) > 2e-3 or not 0 < ccf <= 1 + 1e-9:
            v.add("ccf", "%s: CCF %.5f, the correlation at this angle is %.5f" % (what, ccf, here))
            return False
        if ccf < e[1] - 2e-3:
            v.add("not-best", "%s: CCF %.5f at %.2f deg, %.5f at %.2f" % (what, ccf, math.degrees(a), e[1], e[0] - 90))
            return False
        k = (math.degrees(a) + 90) / step
        if abs(wrap(math.degrees(a) + 90 - e[0])) < 1e-3 and (abs(mccf - e[2]) > 2e-3 or abs(rms - e[3]) > 2e-3):
            v.add("scan", "%s: mean and rms of the scan %.5f %.5f instead of %.5f %.5f" % (what, mccf, rms, e[2], e[3]))
            return False
        if abs(mimg - mean) > 1e-6 * max(1., abs(mean)):
            v.add("mimage", "%s: MIMAGE %r, mean of the image there %r" % (what, mimg, mean))
            return False
        if norm <= 0:
            v.add("norm", "%s: NORM %r" % (what, norm))
            return False
        return True

    # ---- detect_phi_arms
    def scene(self, s):
        r = random.Random(s["s"])
        ny, nx = r.choice([(140, 275), (205, 208), (270, 145)])
        cells = [(i, j) for i in range((ny - 64) // 66 + 1) for j in range((nx - 64) // 66 + 1)]
        r.shuffle(cells)
        im = np.full((ny, nx), float(s["bg"]))
        arms = []
        for i, j in cells[:s["n"]]:
            x, y = 34 + 67 * j + r.uniform(-.9, .9), 34 + 67 * i + r.uniform(-.9, .9)
            if s["flip"]:
                x, y = round(x), round(y)
            if abs(x % 1 - .5) < 1e-3 or abs(y % 1 - .5) < 1e-3:
                x, y = round(x), round(y)
            phi = r.uniform(-math.pi, math.pi)
            if r.random() < 0.15:
                phi = math.radians(r.choice([0, 90, 180, -90, 89.6, -90.4, 45, 179.7]))
            arms.append((x, y, phi))
            paint(im, self.body, x, y, phi, s["amp"])
        for i, j in cells[s["n"]:s["n"] + s["blank"]]:
            arms.append((34 + 67 * j, 34 + 67 * i, None))          # a spot without an arm
        for x, y, phi in list(arms) if s.get("dirt") else []:
            for _ in range(s["dirt"]):
                # something bright in a corner of the stamp, farther than the end of the arm
                i, j = round(y) + r.choice([-28, 28]), round(x) + r.choice([-28, 28])
                im[i - 2:i + 3, j - 2:j + 3] += s["amp"]
        if s.get("twice"):
            arms.append(arms[0])                                   # a spot listed twice
        if s["noise"]:
            im += np.random.default_rng(s["s"]).normal(0, s["noise"] * s["amp"], im.shape)
        return im, arms

    def fits(self, im, s):
        """The file, and the image as it is in there."""
        dt = np.dtype(s["dtype"])
        if dt.kind == "i":
            im = np.rint(im)
        im = im.astype(dt)
        if s["hdu"] == 0:
            return I.fits_bytes([(None, im, {})]), im.astype(float)
        def card(k, q):
            return ("%-8s= %20s" % (k, q)).ljust(80)
        h = "".join([card("SIMPLE", "T"), card("BITPIX", 8), card("NAXIS", 0), card("EXTEND", "T"), "END".ljust(80)])
        t = "".join([card("XTENSION", "'BINTABLE'"), card("BITPIX", 8), card("NAXIS", 2), card("NAXIS1", 8), card("NAXIS2", 3), card("PCOUNT", 0), card("GCOUNT", 1),
                     card("TFIELDS", 1), card("TFORM1", "'D       '"), card("TTYPE1", "'X       '"), "END".ljust(80)])
        out = (h + " " * (-len(h) % 2880)).encode() + (t + " " * (-len(t) % 2880)).encode() + b"\0" * 2880
        if s["hdu"] is not None:
            one = I.fits_bytes([("F%d" % k, im if k == 0 else im[::-1], {}) for k in range(s["hdu"])])
            n = 2880 * (-(-80 * 5 // 2880))
            out += one[n:]
        return out, im.astype(float)

    def api(self, w, v, plan, inst, s, ns, proc):
        from astropy.table import Table
        if not s["noise"]:
            s = dict(s, blank=0, dirt=0)       # flat squares: rounding decides where their edges are
        im, arms = self.scene(s)
        r = random.Random("rows/%d" % s["s"])
        blob, image = self.fits(im, s)
        path = w.put(w.path("work", "front %d.fits" % ns), blob)
        templ = w.put(w.path("work", "arm.fits"), open(self.tfile, "rb").read())
        what = "detect_phi_arms of %d arms" % len(arms)

        nproc0 = [0]

        def table(order):
            t = Table()
            t["XPIX"] = [arms[k][0] for k in order]
            t["YPIX"] = [arms[k][1] for k in order]
            t["COUNTS"] = [1000. + k for k in order]
            if s["s"] % 3 == 0:
                t["ANGLE"] = 7.
            return t

        def measure(order, nproc, f=path):
            t = table(order)
            f0 = sum(w.fired.values())

            def go():
                from desimeter.brightimage import detect_phi_arms
                detect_phi_arms(t, f, templ, s["step"], nproc)
            nproc0[0] += 1
            st, val = w.call(w.new_process("step%d.%d" % (ns, nproc0[0])), go)
            if st == "ok":
                b = table(order)
                if len(t) != len(order) or any(list(t[c]) != list(b[c]) for c in ("XPIX", "YPIX", "COUNTS")):
                    v.add("spots-changed", "%s changes the spots" % what)
                    return None
                try:
                    return {k: [float(t[c][i]) for c in COLS] for i, k in enumerate(order)}
                except KeyError as e:
                    v.add("no-column", "%s: %s" % (what, e))
                    return None
            if sum(w.fired.values()) == f0 and st != "crash":
                if s["hdu"] is None:
                    w.probe("no_image")
                    return None
                if isinstance(val, PoolHang) and w.pool_plan.get("die"):
                    w.probe("worker_killed")
                    return None
                v.add("failed", "%s: %s %s" % (what, st, read_exc(val)))
            else:
                w.probe("reported")
            return None

        order = r.sample(range(len(arms)), len(arms))
        w.pool_plan = dict(s["pool"])
        alone = measure(order, 1)
        w.state("api", len(arms), s["nproc"], s["step"], s["dtype"], s["hdu"], s["bg"], sorted(w.fired), alone is None)
        if s["hdu"] is None:
            if alone is not None:
                v.add("no-image", "%s in a file without an image returns angles" % what)
            return 0
        if v:
            return 1
        n = 0
        if alone is not None:
            n = 1
            w.probe("alone")
            w.log("alone", sorted((k, [round(c, 6) for c in q]) for k, q in alone.items()))
            for k, g in alone.items():
                if arms[k][2] is None:
                    w.probe("blank")
                    continue
                w.probe("angle")
                if not self.verify(v, "%s, spot %d" % (what, k), image, arms[k][0], arms[k][1], arms[k][2], s["step"], g):
                    return 1
            if s["hdu"]:
                w.probe("second_hdu")
            for k in ("dirt", "twice"):
                if s.get(k):
                    w.probe(k)
            if s["step"] < 1:
                w.probe("fine_step")
            if s["step"] > 1:
                w.probe("coarse_step")
            if "i" in s["dtype"]:
                w.probe("integer")

        def same(name, got, tol=2e-6, ref=alone):
            for k, g in got.items():
                if arms[k][2] is None:
                    continue
                bad = abs(wrap(math.degrees(g[0] - ref[k][0]))) > 1e-6 or any(abs(a - b) > tol * max(1., abs(b)) for a, b in zip(g[1:], ref[k][1:]))
                if bad and abs(g[1] - ref[k][1]) < 1e-9 and abs(wrap(math.degrees(g[0] - ref[k][0]))) > 1e-6:
                    bad = False            # a tie
                if bad:
                    v.add(name, "%s: spot %d: %s instead of %s" % (what, k, g, ref[k]))
                    return False
            return True
        # a pool of processes
        w.pool_plan = dict(s["pool"], die=[q for q in s["die"] if q < len(arms)])
        got = measure(order, s["nproc"])
        dead = bool(w.pool_plan["die"])
        w.pool_plan = dict(s["pool"])
        if v:
            return 1
        if got is not None:
            w.probe("pool")
            if dead:
                # whatever was lost has to be visible
                got = {k: g for k, g in got.items() if not math.isnan(g[0])}
            if alone is not None and not same("pool-differs", got):
                return 1
        # other orders and subsets
        sub = r.sample(order, r.randint(1, len(order)))
        got = measure(sub, r.choice([1, s["nproc"]]))
        if v:
            return 1
        if got is not None and alone is not None:
            w.probe("subset")
            if not same("row-dependent", got):
                return 1
        if s["scale"] and alone is not None:
            j = dict(s, dtype=">f8", hdu=0)
            b2, i2 = self.fits(image * 3.5 + 12.25, j)
            got = measure(order, 1, w.put(w.path("work", "scaled %d.fits" % ns), b2))
            if v:
                return 1
            if got is not None:
                w.probe("scale")
                for k, g in got.items():
                    if arms[k][2] is None:
                        continue
                    if abs(g[1] - alone[k][1]) > 1e-3 or abs(g[4] - 3.5 * alone[k][4] - 12.25) > 1e-6 * abs(g[4]):
                        v.add("brightness", "%s: spot %d: %s after a change of gain and bias, %s before" % (what, k, g, alone[k]))
                        return 1
        if s["flip"] and alone is not None:
            # the image turned by 90 degrees: +x becomes +y
            turned = np.rot90(image, -1)
            ny = image.shape[0]
            old, arms[:] = list(arms), [(ny - 1 - y, x, None if p is None else p + math.pi / 2) for x, y, p in arms]
            b2, i2 = self.fits(turned, dict(s, dtype=">f8", hdu=0))
            got = measure(order, 1, w.put(w.path("work", "turned %d.fits" % ns), b2))
            if v:
                return 1
            if got is not None:
                w.probe("flip")
                for k, g in got.items():
                    if arms[k][2] is not None and not self.verify(v, "%s turned by 90 deg, spot %d" % (what, k), i2, arms[k][0], arms[k][1], arms[k][2], s["step"], g):
                        return 1
            arms[:] = old
        return n

    # ---- analyze_bright_image
    def script(self, w, v, plan, inst, s, ns, api):
        rng = random.Random("script/%d" % s["s"])
        fp, tx = inst.fp, inst.tx(None)
        from scipy.spatial import cKDTree
        px1, py1 = tx.fp2fvc(fp.x[fp.ipos], fp.y[fp.ipos])
        fx, fy = tx.fp2fvc(fp.x[fp.ifid], fp.y[fp.ifid])
        cx, cy = tx.fvc2fp(np.full(3, inst.nx / 2) + [0, 1, 0], np.full(3, inst.ny / 2) + [0, 0, 1])
        scale = 1 / math.sqrt(math.hypot(cx[1] - cx[0], cy[1] - cy[0]) * math.hypot(cx[2] - cx[0], cy[2] - cy[0]))     # pixels per mm
        arms = []
        for k, i in enumerate(fp.ipos):
            if rng.random() < s["dead"]:
                continue
            for _ in range(80):
                th, phi = rng.uniform(0, 2 * math.pi), rng.uniform(-math.pi, math.pi)
                kx, ky = px1[k] + 2.9 * scale * math.cos(th), py1[k] + 2.9 * scale * math.sin(th)
                x, y = kx - 3 * scale * math.cos(phi), ky - 3 * scale * math.sin(phi)
                if math.hypot(x - px1[k], y - py1[k]) > 4.2 * scale or not (34 < x < inst.nx - 35 and 34 < y < inst.ny - 35):
                    continue
                if all(math.hypot(x - q[1], y - q[2]) > 62 for q in arms) and np.hypot(fx - x, fy - y).min() > 40:
                    arms.append((i, x, y, phi, kx, ky))
                    break
        if not arms:
            return 0
        im = np.full((inst.ny, inst.nx), 500.)
        for i, x, y, phi, kx, ky in arms:
            paint(im, self.body, x, y, phi, 3000.)
        im += np.random.default_rng(s["s"]).normal(0, 15., im.shape)
        front = w.put(w.path("work", "front.fits"), I.fits_bytes([(None, im.astype(">f4"), {})]))
        rows = [(x, y, 50000.) for i, x, y, phi, kx, ky in arms] + [(x, y, 40000.) for x, y in zip(fx, fy)]
        rng.shuffle(rows)
        if s["image"]:
            e = object.__new__(I.Exposure)
            e.inst = inst
            e.xpix, e.ypix, e.counts = (np.array(q, float) for q in zip(*rows))
            back = w.put(w.path("work", "back.fits"), I.fits_bytes([(None, e.image(np.random.default_rng(s["s"] + 1)), {})]))
            w.probe("back_image")
        else:
            f, w.faults = w.faults, []
            spots = w.put(w.path("work", "spots.csv"), ("XPIX,YPIX,XERR,YERR,COUNTS\n" + "".join("%r,%r,0.01,0.01,%g\n" % (float(a), float(b), c) for a, b, c in rows)).encode())
            back = w.path("work", "back.csv")
            st, val = w.run_script(w.new_process("fvc"), "desi_fvc_proc", ["-i", spots, "-o", back])
            w.faults = f
            if not os.path.exists(back):
                v.add("fvc-failed", "desi_fvc_proc: %s" % read_exc(val))
                return 0
        out = w.path("work", "arms.csv")
        argv = ["--front-illuminated", front, "--back-illuminated", back, "-o", out]
        if s["nproc"] > 1:
            argv += ["--nproc", str(s["nproc"])]
        if s["template"]:
            argv += ["--template", w.put(w.path("work", "arm.fits"), open(self.tfile, "rb").read())]
        w.pool_plan = {"seed": s["s"], "eager": 0.3, "cpu_count": 4}
        what = "analyze_bright_image of %d arms" % len(arms)
        truth = {int(fp.loc[a[0]]): a for a in arms}

        def start(av, name):
            f0 = sum(w.fired.values())
            st, val = w.run_script(w.new_process(name), "analyze_bright_image", av)
            code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
            w.state("script", len(arms), s["nproc"], s["template"], s["table"], sorted(w.fired), code)
            if code:
                if sum(w.fired.values()) > f0:
                    w.probe("reported")
                else:
                    v.add("failed", "%s: %s" % (what, read_exc(val) if st == "exc" else val))
                return False
            if sum(w.fired.values()) > f0:
                w.clear_faults()
            return True

        def table(f):
            try:
                from astropy.table import Table
                return table_dict(Table.read(f))
            except Exception as e:
                v.add("unreadable", "%s: %s" % (what, read_exc(e)))
        if not start(argv, "bright"):
            return 0
        w.probe("script")
        t = table(out)
        if t is None:
            return 1
        need = ["XPIX", "YPIX", "X_FP", "Y_FP", "ANGLE", "CCF", "XPIX_KNEE", "YPIX_KNEE", "X_FP_KNEE", "Y_FP_KNEE", "X_FP_METRO", "Y_FP_METRO", "XPIX_METRO", "YPIX_METRO",
                "LOCATION", "PETAL_LOC", "DEVICE_LOC", "DEVICE_ID", "PTL_X", "PTL_Y", "Q", "S"]
        miss = [c for c in need if c not in t]
        if miss:
            v.add("no-column", "%s: no %s" % (what, miss))
            return 1
        self.rows(w, v, what, t, truth, fp, inst, tx, scale)
        if v:
            return 1
        if s["table"]:
            # the angles of a table instead of those of the image
            from astropy.table import Table
            r2 = random.Random(s["s"] + 1)
            give = {L: (wrap(math.degrees(a[3]) + r2.uniform(-3, 3)), r2.uniform(0.3, 0.9)) for L, a in truth.items()}
            rows = sorted(truth)
            r2.shuffle(rows)
            c = ["XPIX", "YPIX", "X_FP", "Y_FP", "COUNTS", "ANGLE", "CCF"]
            lines = [",".join(c)]
            for L in rows:
                a = truth[L]
                X, Y = tx.fvc2fp(np.array([a[1]]), np.array([a[2]]))
                lines.append(",".join("%r" % float(q) for q in (a[1], a[2], X[0], Y[0], 50000., math.radians(give[L][0]), give[L][1])))
            tab = w.put(w.path("work", "angles.csv"), ("\n".join(lines) + "\n").encode())
            out2 = w.path("work", "arms2.csv")
            what += " with the angles of a table"
            if not start(argv[:4] + ["-o", out2, "--phi-arm-angle-table", tab], "again"):
                return 1
            t2 = table(out2)
            if t2 is None:
                return 1
            w.probe("table")
            tr = {L: (a[0], a[1], a[2], math.radians(give[L][0])) + a[4:] for L, a in truth.items()}
            self.rows(w, v, what, t2, tr, fp, inst, tx, scale, exact=give)
        return 1

    def rows(self, w, v, what, t, truth, fp, inst, tx, scale, exact=None):
        from dref.ptl2fp import fp2ptl
        from dref.xy2qs import xy2qs
        seen = set()
        loc = [int(q) for q in t["LOCATION"]]
        meas = {}
        for k, L in enumerate(loc):
            if L in seen:
                v.add("twice", "%s: LOCATION %d has two rows" % (what, L))
                return
            seen.add(L)
            if L not in truth:
                v.add("false", "%s: LOCATION %d has no arm" % (what, L))
                return
            i, x, y, phi, kx, ky = truth[L]
            g = {c: t[c][k] for c in t}
            if math.hypot(float(g["XPIX"]) - x, float(g["YPIX"]) - y) > 0.1:
                v.add("identity", "%s: LOCATION %d at %s %s, its fibre is at %.2f %.2f" % (what, L, g["XPIX"], g["YPIX"], x, y))
                return
            X, Y = tx.fvc2fp(np.array([x]), np.array([y]))
            if math.hypot(float(g["X_FP"]) - X[0], float(g["Y_FP"]) - Y[0]) > 0.02:
                v.add("position", "%s: LOCATION %d X_FP %s Y_FP %s instead of %.3f %.3f" % (what, L, g["X_FP"], g["Y_FP"], X[0], Y[0]))
                return
            if int(g["PETAL_LOC"]) != fp.pet[i] or int(g["DEVICE_LOC"]) != fp.dev[i] or str(g["DEVICE_ID"]) != fp.devid[i] or \
               abs(float(g["X_FP_METRO"]) - fp.x[i]) > 1e-6 or abs(float(g["Y_FP_METRO"]) - fp.y[i]) > 1e-6:
                v.add("identity", "%s: LOCATION %d: %s" % (what, L, {c: g[c] for c in ("PETAL_LOC", "DEVICE_LOC", "DEVICE_ID", "X_FP_METRO", "Y_FP_METRO")}))
                return
            a = float(g["ANGLE"])
            err = abs(wrap(math.degrees(a - phi)))
            if not err < (1e-6 if exact else 4.5):
                v.add("table-angle" if exact else "angle", "%s: LOCATION %d angle %.3f deg, %s %.3f" % (what, L, math.degrees(a), "given" if exact else "drawn", math.degrees(phi)))
                return
            if exact and abs(float(g["CCF"]) - exact[L][1]) > 1e-6:
                v.add("table-angle", "%s: LOCATION %d CCF %s, given %s" % (what, L, g["CCF"], exact[L][1]))
                return
            ex, ey = x + 3 * scale * math.cos(a), y + 3 * scale * math.sin(a)
            d = math.hypot(float(g["XPIX_KNEE"]) - ex, float(g["YPIX_KNEE"]) - ey)
            KX, KY = tx.fvc2fp(np.array([ex]), np.array([ey]))
            d2 = math.hypot(float(g["X_FP_KNEE"]) - KX[0], float(g["Y_FP_KNEE"]) - KY[0])
            STATS.append(("knee", d, d2))
            if not d < 0.2 or not d2 < 0.04:
                v.add("knee", "%s: the knee of LOCATION %d is %.3f pixels and %.4f mm off" % (what, L, d, d2))
                return
            w.probe("knee")
            mx, my = tx.fp2fvc(fp.x[i:i + 1], fp.y[i:i + 1])
            if math.hypot(float(g["XPIX_METRO"]) - mx[0], float(g["YPIX_METRO"]) - my[0]) > 0.6:
                v.add("metro-pixel", "%s: LOCATION %d XPIX_METRO %s YPIX_METRO %s instead of %.2f %.2f" % (what, L, g["XPIX_METRO"], g["YPIX_METRO"], mx[0], my[0]))
                return
            p = fp2ptl(int(fp.pet[i]), np.array([float(g["X_FP"])]), np.array([float(g["Y_FP"])]))
            q, ss = xy2qs(np.array([float(p[0][0])]), np.array([float(p[1][0])]))
            if abs(float(g["PTL_X"]) - p[0][0]) > 2e-3 or abs(float(g["PTL_Y"]) - p[1][0]) > 2e-3 or \
               abs(wrap(float(g["Q"]) - q[0])) > 1e-3 or abs(float(g["S"]) - ss[0]) > 5e-3:
                v.add("petal-frame", "%s: LOCATION %d: %s" % (what, L, {c: g[c] for c in ("PTL_X", "PTL_Y", "Q", "S")}))
                return
        if seen != set(truth):
            v.add("lost", "%s: no row for LOCATION %s" % (what, sorted(set(truth) - seen)[:5]))


PROP = P()
