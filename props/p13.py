"""P13  FVC images: every spot of every frame once, where it is, with its error; no others."""
import csv
import io
import math
import os
import random
import warnings

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder, truth_check, Scheduler, patch_locks

STATS = []


def free_spots(r, n, nx, ny, sep, margin, taken):
    out = []
    for _ in range(60 * n):
        if len(out) == n:
            break
        x, y = r.uniform(margin, nx - 1 - margin), r.uniform(margin, ny - 1 - margin)
        if all((x - a) ** 2 + (y - b) ** 2 > sep * sep for a, b in taken):
            taken.append((x, y))
            out.append((x, y))
    return out


def add_spots(im, spots, sigma):
    from scipy.special import erf
    ny, nx = im.shape
    hw = int(5 * sigma + 3)
    a = 1 / (math.sqrt(2) * sigma)
    for px, py, c in spots:
        i1, i0 = int(round(px)), int(round(py))
        u = np.arange(max(0, i1 - hw), min(nx, i1 + hw + 1))
        v = np.arange(max(0, i0 - hw), min(ny, i0 + hw + 1))
        g1 = 0.5 * (erf(a * (u + .5 - px)) - erf(a * (u - .5 - px)))
        g0 = 0.5 * (erf(a * (v + .5 - py)) - erf(a * (v - .5 - py)))
        im[v[0]:v[-1] + 1, u[0]:u[-1] + 1] += c * g0[:, None] * g1[None, :]


class Frame:
    """One exposure: spots drawn on a detector with noise, pedestal, bias structure and bad pixels."""

    def __init__(self, plan, k, f):
        r = random.Random("p13f/%d/%d" % (plan["seed"], f["seed"]))
        g = np.random.RandomState(r.randrange(1 << 31))
        self.nx, self.ny = plan["nx"], plan["ny"]
        s = self.sigma = plan["sigma"]
        self.noise = f["noise"]
        taken = list(plan_hot(plan))
        sep = max(8.0, 8.0 * s)
        # bright spots, faint ones (below the default cut on counts), those at the border, and cosmic rays
        pos = free_spots(r, f["n"], self.nx, self.ny, sep, 6.0, taken)
        self.spots = []
        for i, (x, y) in enumerate(pos):
            if f["half"]:
                x, y = math.floor(x) + r.choice([0, 0.5]), math.floor(y) + r.choice([0, 0.5])
            c = r.uniform(20000, 90000) * max(1, s * s)
            self.spots.append((x, y, c))
        self.faint = [(x, y, r.uniform(4000, 7000)) for x, y in free_spots(r, f["faint"], self.nx, self.ny, sep, 6.0, taken)]
        self.edge = []
        for _ in range(f["edge"]):
            a = r.uniform(-1, 4)
            x, y = r.choice([(a, r.uniform(10, self.ny - 11)), (self.nx - 1 - a, r.uniform(10, self.ny - 11)),
                             (r.uniform(10, self.nx - 11), a), (r.uniform(10, self.nx - 11), self.ny - 1 - a)])
            if all((x - p) ** 2 + (y - q) ** 2 > (sep + 4) ** 2 for p, q in taken):
                taken.append((x, y))
                self.edge.append((x, y, r.uniform(20000, 60000)))
        self.cosmics = [(int(x), int(y)) for x, y in free_spots(r, f["cosmics"], self.nx, self.ny, sep + 4, 4.0, taken)]
        im = np.full((self.ny, self.nx), float(f["ped"]))
        add_spots(im, self.spots + self.faint + self.edge, s)
        for x, y in self.cosmics:
            im[y, x] += r.choice([-f["ped"] * 0.9, 800.0, 4000.0, 30000.0])
        if f["noise"]:
            im += g.normal(0, f["noise"], im.shape)
        if in_image(plan):
            im += bias_image(plan)
        dt = plan["dtype"]
        if dt == "u2":
            im += max(0, 400 - f["ped"])
        if dt[-2] in "iu":
            im = np.clip(np.round(im), 0 if dt[-2] == "u" else -32768, {"i2": 32767, "u2": 65535}.get(dt[-2:], 1 << 30))
            self.saturated = False
            self.noise = math.hypot(self.noise, 0.29)
        self.image = im.astype(dt)

    def limits(self, c):
        """Lowest and highest peak of a spot of c counts in the convolved image."""
        v = 2 * self.sigma ** 2 + 1 / 12.0
        top = c / (2 * math.pi * v)
        return top * math.exp(-0.25 / v) * 0.93, top * 1.07


def plan_hot(plan):
    r = random.Random("p13hot/%d" % plan["seed"])
    if not plan["bias"]:
        return []
    return free_spots(r, plan["bias"]["hot"], plan["nx"], plan["ny"], 8, 5.0, [])


def in_image(plan):
    """Whether the images have the structure of the bias."""
    return bool(plan["bias"]) and plan["bias"].get("where", "image") != "default"


def bias_image(plan):
    g = np.random.RandomState(plan["seed"] % (1 << 31))
    b = plan["bias"]
    im = b["col"] * g.uniform(-1, 1, plan["nx"])[None, :] + b["row"] * g.uniform(-1, 1, plan["ny"])[:, None]
    for x, y in plan_hot(plan):
        im[int(y), int(x)] += b["amp"]
    return np.round(im)


class P(Prop):
    id = "P13"
    rule = ("one case = one simulated series of FVC image files (frames, bias, bad pixels, data types) processed by desi_fvc_proc, fvc_proc or "
            "detectspots in several processes and threads, with truncated files and disk faults; non-trivial = spots were compared with those drawn")
    state_measure = "(entry point, extension selection, data type, bias, bad pixels, noise, faults, outcome)"
    real = ["detectspots", "processfvc", "bin/desi_fvc_proc"]
    stubs = ["fibre view camera images", "disk faults", "process deaths", "thread schedule", "clock, random state of the process"]
    assumptions = ["gaussian spots at least eight sigma (and pixels) apart", "spots within 6 pixels of the border and bad pixels need not be found"]
    must_probe = ["judged", "script", "api", "detect", "sequence", "last", "extname", "single", "bias", "nobias", "bias-image", "bias-default", "bias-other", "otherbias", "hot", "cosmics",
                  "half", "faint", "quiet", "minspots", "mkdir", "truncated", "reported", "enospc", "crash", "again", "par", "pull", "empty", "match"]
    tiers = {"quick": {"runs": 1200, "cap_s": 75, "run_timeout": 150, "min_s": 55},
             "thorough": {"runs": 30000, "cap_s": 1800, "run_timeout": 200, "min_s": 120}}

    def setup(self, base):
        install_finder()
        for n in ("astropy.table", "astropy.io.ascii", "scipy.spatial", "scipy.signal", "scipy.special", "fitsio", "skimage"):
            try:
                __import__(n)
            except ImportError:
                pass
        self.inst = I.tiny(base, 0)

    def gen(self, seed, tier):
        r = random.Random("p13gen/%d" % seed)
        layout = r.choice(["single", "ext", "ext", "ext"])
        full = layout == "ext" and r.random() < 0.12          # a sequence through the whole pipeline
        nf = 1 if layout == "single" else r.choice([1, 2, 3, 3, 5])
        bias = None
        if r.random() < 0.5:
            bias = {"col": r.choice([0, 20, 150]), "row": r.choice([0, 60]), "hot": r.choice([0, 3, 12]), "amp": r.choice([3000, 25000, 60000]),
                    "where": r.choice(["image", "image", "default", "other"])}
        nx, ny = r.choice([(90, 130), (160, 120), (200, 260), (64, 64), (300, 180)])
        noise = r.choice([0, 0, 0.2, 2, 8, 8, 20])
        frames = []
        sigma = r.choice([1.0, 1.0, 1.0, 0.8, 1.3, 1.5])
        nmax = max(2, int(0.12 * nx * ny / (50 * sigma ** 2)))       # crowded frames have no background to measure
        for k in range(nf + 1):
            n = min(nmax, r.choice([1, 2, 5, 15, 40, 80]))
            frames.append({"seed": r.randrange(1 << 30), "n": n if r.random() > 0.06 else 0, "noise": noise, "ped": r.choice([0, 300, 1000, 1000, 2000]),
                           "faint": r.choice([0, 0, 4]), "edge": r.choice([0, 0, 2]), "cosmics": r.choice([0, 0, 0, 3]), "half": r.random() < 0.25})
        steps = []
        for _ in range(r.randint(1, 4)):
            steps.append({"op": r.choice(["script", "script", "api", "api", "detect", "par", "replace"]),
                          "sel": r.choice(["default", "name", "last", "seq", "seq"]), "k": r.randrange(8), "s": r.randrange(1 << 20),
                          "bias": r.choice(["default", "default", "none", "other"]), "min": r.choice([None, None, "low"]),
                          "cut": r.choice([None, None, None, "min-ok", "min-bad", "max-ok", "max-bad"]), "mkdir": r.random() < 0.25,
                          "twice": r.random() < 0.3, "trunc": round(r.random(), 4) if r.random() < 0.12 else None})
        faults = []
        if r.random() < 0.35:
            for _ in range(r.randint(1, 2)):
                k = r.choice(["enospc", "eio", "short", "emfile", "crash", "torn", "eacces"])
                faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 9])), "frac": round(r.random(), 3), "once": True,
                               "ops": {"enospc": ["write", "open_w", "mkdir"], "short": ["write"], "torn": ["write"], "emfile": ["open_r", "open_w"],
                                       "eacces": ["open_w", "mkdir"], "eio": r.choice([["open_r"], ["write"]]),
                                       "crash": ["write", "open_w", "open_r"]}[k]})
        return {"seed": seed, "np_seed": r.randrange(1 << 31), "layout": layout, "first": r.choice([0, 0, 0, 1, 3]), "tail": r.random() < 0.3,
                "head": r.random() < 0.2, "lower": r.random() < 0.15, "full": full,
                "nx": nx, "ny": ny, "sigma": sigma, "bias": bias, "frames": frames,
                "dtype": r.choice([">f4", ">f4", "<f8", ">i4", "u2" if noise else ">i4"]), "steps": steps, "faults": faults,
                "sched": {"seed": seed, "p": 0, "p_io": 0.5}, "_lists": ["steps", "faults"]}

    # ------------------------------------------------------------------
    def write(self, plan, w, path, imgs):
        """The FITS file, as cfitsio writes it."""
        import fitsio
        if os.path.exists(path):
            os.unlink(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        first = plan["first"]
        imgs = [im.astype(im.dtype.newbyteorder("=")) for im in imgs]     # fitsio writes others wrong
        with fitsio.FITS(path, "rw") as fx:
            if plan["layout"] == "single":
                fx.write(imgs[0])
                return path
            fx.write(None)
            if plan["head"]:
                fx.write(np.zeros((4, 5), "f4"), extname="PRIOR")
            for k, im in enumerate(imgs):
                n = "F%04d" % (first + k)
                fx.write(im, extname=n.lower() if plan["lower"] else n)
            if plan["tail"]:
                fx.write(np.zeros((4, 5), "f4"), extname="GUIDE")
        return path

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        dd = w.use_data(self.inst.datadir)
        if plan["full"]:
            return self.run_full(plan, w, v, faults)
        import fitsio
        frames = [Frame(plan, k, f) for k, f in enumerate(plan["frames"])]
        spare = frames.pop()
        infile = w.path("work", "fvc %d.fits" % (plan["seed"] % 7))
        self.write(plan, w, infile, [f.image for f in frames])
        names = ["F%04d" % (plan["first"] + k) for k in range(len(frames))]
        other = w.path("work", "other bias.fits")
        if plan["bias"]:
            w.probe("hot" if plan["bias"]["hot"] else "flatbias")
            # the structure is in the images and in the default bias, in the default bias only, or in the images and in the other bias
            wh = plan["bias"].get("where", "image")
            w.probe("bias-" + wh)
            for p, im in ((os.path.join(dd, "bias.fits"), bias_image(plan) * (wh != "other")), (other, bias_image(plan) * (wh == "other"))):
                with fitsio.FITS(p, "rw") as fx:
                    fx.write(im.astype("f4"))
        n = 0
        pulls = []
        w.install()
        patch_locks(w)
        w.faults = faults
        try:
            for ns, s in enumerate(plan["steps"]):
                if v:
                    break
                f0 = sum(w.fired.values())
                if s["op"] == "replace":
                    frames = frames[:-1] + [spare]
                    spare = frames[-1]
                    self.write(plan, w, infile, [f.image for f in frames])
                    continue
                if s["op"] == "detect":
                    n += self.detect(w, v, plan, frames[s["k"] % len(frames)], s, pulls)
                    continue
                # the command and what it must do
                jobs = [self.job(plan, w, s, infile, other, frames, names, "out%d" % ns)]
                if s["op"] == "par":
                    s2 = dict(s, sel="name", k=s["k"] + 1, cut=None, trunc=None)
                    jobs[0] = self.job(plan, w, dict(s, trunc=None), infile, other, frames, names, "out%d" % ns)
                    jobs.append(self.job(plan, w, s2, infile, other, frames, names, "out%db" % ns))
                if s["op"] != "par" and s["trunc"] is not None:
                    full = open(infile, "rb").read()
                    cut = int(len(full) * s["trunc"]) if s["trunc"] < 0.9 else len(full) - 1 - int(20000 * (1 - s["trunc"]))
                    w.put(infile, full[:max(0, cut)])
                res, p = [], None
                if s["op"] == "script":
                    w.probe("script")
                    st, val = w.run_script(w.new_process("fvc%d" % ns), "desi_fvc_proc", jobs[0]["argv"])
                    res = [(st, val)]
                elif s["op"] == "api":
                    w.probe("api")
                    p = w.new_process("api%d" % ns)
                    res = [w.call(p, self.body, [jobs[0]["argv"]] * (2 if s["twice"] else 1))]
                else:
                    w.probe("par")
                    p = w.new_process("par%d" % ns)
                    w.call(p, self.body, [])
                    sch = w.sched = Scheduler(w, plan["sched"])
                    ts = [sch.spawn("t%d" % i, p, lambda j=j: self.body([j["argv"]])) for i, j in enumerate(jobs)]
                    sch.run()
                    w.sched = None
                    if sch.deadlock:
                        v.add("deadlock", "concurrent calls never finish")
                        break
                    res = [t.result for t in ts]
                hit = sum(w.fired.values()) > f0
                for j, (st, val) in zip(jobs, res):
                    if p is not None and p.dead:         # no thread of a dead process reports success
                        st = "crash"
                    code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
                    if st == "ok" and isinstance(val, list):
                        if len(set(val)) > 1:
                            v.add("second-call", "%s: fvc_proc returned %s for the same arguments" % (j["what"], val))
                        code = max(val) if val else 0
                    w.state(s["op"], s["sel"], plan["dtype"], bool(plan["bias"]), s["bias"], plan["frames"][0]["noise"], plan["sigma"],
                            s["cut"], sorted(w.fired), code, s["trunc"] is not None)
                    n += self.judge(w, v, plan, j, code, st, val, hit, s["op"] != "par" and s["trunc"] is not None, pulls)
                if s["op"] != "par" and s["trunc"] is not None:
                    w.put(infile, full)
            # once faults stop
            if not v and hit_any(w):
                w.clear_faults()
                s = {"op": "script", "sel": "seq" if plan["layout"] == "ext" else "default", "k": 0, "bias": "default", "min": None, "cut": None,
                     "mkdir": False}
                j = self.job(plan, w, s, infile, other, frames, names, "last")
                st, val = w.run_script(w.new_process("last"), "desi_fvc_proc", j["argv"])
                n += self.judge(w, v, plan, j, {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1), st, val, False, False, pulls)
                w.probe("again")
            self.pulls(w, v, plan, pulls)
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=len(plan["steps"]), evals=n)

    @staticmethod
    def body(argvs):
        from desimeter.processfvc import get_parser, fvc_proc
        from desimeter.log import get_logger
        out = []
        args = None
        for a in argvs:
            args = args if args is not None else get_parser().parse_args(a)   # the same arguments again
            out.append(int(fvc_proc(args, get_logger()) or 0))
        return out

    def job(self, plan, w, s, infile, other, frames, names, tag):
        single = plan["layout"] == "single"
        outdir = os.path.join("work", tag + " dir") if s["mkdir"] else "work"
        out = w.path(outdir, tag + ".csv")
        a = ["-i", infile, "-o", out, "--nomatch"]
        k = s["k"] % len(frames)
        missing = False
        sel = s["sel"]
        if s["mkdir"]:
            a.append("--make-directory")
        todo = {}
        if single:
            todo = {out: 0}
            sel = "single"
            if s["sel"] == "name":
                a += ["--extname", "F0000"]
        elif sel == "default":
            missing = plan["first"] != 0
            todo = {out: 0}
        elif sel == "name":
            a += ["--extname", names[k]]
            todo = {out: k}
        elif sel == "last":
            a += ["--extname", "last"]
            todo = {out: len(frames) - 1}
        else:
            a.append("--sequence")
            todo = {out.replace(".csv", "-%s.csv" % nm.lower()): i for i, nm in enumerate(names)}
        w.probe({"seq": "sequence", "name": "extname"}.get(sel, sel))
        if s["mkdir"]:
            w.probe("mkdir")
        if plan["sigma"] != 1.0:
            a += ["--fvc-psf-sigma", str(plan["sigma"])]
        low = s["min"] == "low"
        if low:
            a += ["--min-counts", "2000", "--min-counts-per-pixel", "60"]
        applied = True                                # no structure is left in the image which is searched
        wh = plan["bias"] and plan["bias"].get("where", "image")
        if s["bias"] == "none":
            a.append("--no-bias")
            applied = wh in (None, "default")
            w.probe("nobias")
        elif s["bias"] == "other" and plan["bias"]:
            a += ["--bias", other]
            applied = wh in ("default", "other")
            w.probe("otherbias")
        elif plan["bias"]:
            applied = wh == "image"
            w.probe("bias")
        must_fail = missing
        fewer = None
        if s["cut"]:
            # number of spots detected, when it is certain
            cs = [self.count(plan, frames[i], low, applied) for i in todo.values()]
            if all(c is not None for c in cs) and not missing:
                w.probe("minspots")
                if s["cut"] == "min-ok":
                    a += ["--min-spots", str(min(cs))]
                elif s["cut"] == "max-ok":
                    a += ["--max-spots", str(max(cs))]
                elif s["cut"] == "min-bad":
                    fewer = max(cs)
                    a += ["--min-spots", str(fewer)]
                    todo2 = {o: i for o, i in todo.items() if self.count(plan, frames[i], low, applied) >= fewer}
                    must_fail = len(todo2) < len(todo)
                else:
                    lim = min(cs)
                    a += ["--max-spots", str(lim)]
                    todo2 = {o: i for o, i in todo.items() if self.count(plan, frames[i], low, applied) <= lim}
                    must_fail = len(todo2) < len(todo)
                if s["cut"].endswith("bad"):
                    gone = [o for o in todo if o not in todo2]
                    return {"argv": a, "todo": {o: frames[i] for o, i in todo2.items()}, "gone": gone, "must_fail": must_fail, "low": low,
                            "applied": applied, "what": self.what(plan, s, a)}
        return {"argv": a, "todo": {o: frames[i] for o, i in todo.items()}, "gone": [], "must_fail": missing, "low": low, "applied": applied,
                "what": self.what(plan, s, a)}

    @staticmethod
    def what(plan, s, a):
        return "%s %s (%s, sigma %g)" % (s["op"], " ".join(os.path.basename(x) for x in a[2:]), plan["dtype"], plan["sigma"])

    @staticmethod
    def count(plan, f, low, applied):
        """Number of detections of a frame, None if bad pixels make it uncertain."""
        if f.edge or f.cosmics or (plan["bias"] and not applied and (plan["bias"]["hot"] or plan["bias"]["col"] or plan["bias"]["row"])):
            return None
        n = len(f.spots) + (len(f.faint) if low else 0)
        return n if n and (len(f.spots) or not f.faint) else None

    def judge(self, w, v, plan, j, code, st, val, hit, trunc, pulls):
        what = j["what"]
        err = "%s %s" % (st, read_exc(val) if st == "exc" else val)
        empty = [o for o, f in j["todo"].items() if not f.spots and not (j["low"] and f.faint)]
        if trunc:
            w.probe("truncated")
        if code:
            if empty and not hit and not trunc:
                w.probe("empty")
            if hit or trunc:
                w.probe("reported")
            if not (hit or trunc or j["must_fail"] or empty):
                v.add("failed", "%s: %s" % (what, err))
            if not (j["gone"] and not hit and not trunc and not empty):
                return 0
        if j["must_fail"] and not code:
            v.add("no-error", "%s: status 0" % what)
            return 0
        for o in j["gone"]:
            if w.durable(o) is not None:
                v.add("cut-ignored", "%s: %s was written" % (what, os.path.basename(o)))
        n = 0
        if trunc and "--sequence" in j["argv"]:      # the directory of a truncated file may end early, but not be empty
            todo = {o: f for o, f in j["todo"].items() if w.durable(o) is not None}
            if list(todo) == list(j["todo"])[:len(todo)] and todo:
                j["todo"] = todo
        if trunc and "last" in j["argv"]:            # ... and then another frame is the last one
            return 0
        for o, f in j["todo"].items():
            if v:
                break
            b = w.durable(o)
            if b is None:
                v.add("no-output", "%s: no %s" % (what, os.path.basename(o)))
                break
            try:
                rows = list(csv.DictReader(io.StringIO(b.decode())))
                t = {k: np.array([float(r[k]) for r in rows]) for k in ("XPIX", "YPIX", "XERR", "YERR", "COUNTS")}
            except Exception as e:
                v.add("unreadable", "%s: %s %s" % (what, os.path.basename(o), read_exc(e)))
                break
            n += self.compare(w, v, plan, f, t, j["low"], j["applied"], "%s %s" % (what, os.path.basename(o)), pulls)
        return n

    def compare(self, w, v, plan, f, t, low, applied, what, pulls):
        """Detections against the spots drawn."""
        from scipy.spatial import cKDTree
        noise = f.noise
        raw = plan["bias"] and not applied            # bias structure left in the image
        if raw:
            noise = math.hypot(noise, math.hypot(plan["bias"]["col"], plan["bias"]["row"]) / 1.7)
        n = len(t["XPIX"])
        need = list(f.spots) + (list(f.faint) if low and noise < 30 else [])
        s = f.sigma
        need = [p for p in need if f.limits(p[2])[0] > max(60 if low else 500, 7.2 * noise * 0.29 / s + 1)]
        if not len(need):
            return 0
        bad = list(f.edge) + [(x, y, 0) for x, y in f.cosmics] + ([(int(x), int(y), 0) for x, y in plan_hot(plan)] if raw else [])
        if n == 0:
            v.add("missed", "%s: none of %d spots" % (what, len(need)))
            return 1
        xy = np.c_[t["XPIX"], t["YPIX"]]
        if not np.all(np.isfinite(xy)):
            v.add("nan", "%s: not finite" % what)
            return 1
        p = np.array(need)
        rows = cKDTree(xy).query_ball_point(p[:, :2], 1.0)
        used = set()
        e0 = noise * math.sqrt(8 * math.pi) * (s * s + 1 / 12.0) / p[:, 2]
        for i, (q, rr) in enumerate(zip(need, rows)):
            if len(rr) != 1:
                v.add("missed" if not rr else "twice", "%s: spot of %d counts at %.2f %.2f found %d times" % (what, q[2], q[0], q[1], len(rr)))
                return 1
            k = rr[0]
            used.add(k)
            dx, dy = xy[k] - p[i, :2]
            lim = (15 if raw else 6) * e0[i] + 2e-3 + (0.004 if s > 1.2 else 0)
            if max(abs(dx), abs(dy)) > lim:
                v.add("centroid", "%s: spot of %d counts at %.3f %.3f measured %.4f %.4f away (error %.4f)" % (what, q[2], q[0], q[1], dx, dy, e0[i]))
                return 1
            if abs(t["COUNTS"][k] - q[2]) > (15 if raw else 7) * noise * 3.6 * s + 0.015 * q[2] + 50 * s * s:
                v.add("counts", "%s: spot of %d counts measured %d" % (what, q[2], t["COUNTS"][k]))
                return 1
            ex, ey = t["XERR"][k], t["YERR"][k]
            if not (np.isfinite(ex) and np.isfinite(ey) and ex >= 0 and ey >= 0):
                v.add("error-nan", "%s: XERR %s YERR %s" % (what, ex, ey))
                return 1
            if not raw and noise > 0.5 and not f.cosmics and not (0.6 * e0[i] < ex < 1.7 * e0[i] and 0.6 * e0[i] < ey < 1.7 * e0[i]):
                v.add("error-wrong", "%s: XERR %.5f YERR %.5f, expected %.5f (%d counts)" % (what, ex, ey, e0[i], q[2]))
                return 1
            if not raw and noise > 0.5:
                pulls.append((q, dx, dy, ex, ey))
        ok = list(f.spots) + list(f.faint)
        okt = cKDTree(np.array(ok)[:, :2])
        badt = cKDTree(np.array(bad)[:, :2]) if bad else None
        for k in range(n):
            if k in used:
                continue
            d, i = okt.query(xy[k])
            if badt is not None and badt.query(xy[k])[0] < 8:
                continue
            if d < 1 and not low and ok[i] in f.faint and 10000 < t["COUNTS"][k]:
                pass
            elif d < 1 and (ok[i] not in f.faint or low):
                continue
            v.add("false-spot", "%s: detection at %.2f %.2f (%d counts), nearest spot at %.2f" % (what, xy[k][0], xy[k][1], t["COUNTS"][k], d))
            return 1
        w.probe("judged")
        for name, c in (("cosmics", f.cosmics), ("faint", f.faint and low), ("quiet", noise < 0.5)):
            if c:
                w.probe(name)
        if any(q[0] % 0.5 == 0 and q[1] % 0.5 == 0 for q in f.spots):
            w.probe("half")
        return 1

    @staticmethod
    def pulls(w, v, plan, pulls):
        """XERR, YERR are the errors of XPIX, YPIX; each spot and frame once."""
        seen, z = set(), []
        for q, dx, dy, ex, ey in pulls:
            if q in seen:
                continue
            seen.add(q)
            z += [dx / ex, dy / ey]
        if len(z) < 60 or v:
            return
        w.probe("pull")
        z = np.array(z)
        rms, lim = z.std(), 5 / math.sqrt(2 * len(z))
        STATS.append(("pull", rms, abs(z.mean()) * math.sqrt(len(z)), plan["sigma"], len(z)))
        if not 0.9 - lim < rms < 1.12 + lim:
            v.add("pull", "rms of (measured - true) / XERR = %.2f for %d coordinates" % (rms, len(z)))
        m = [z[0::2].mean(), z[1::2].mean()]
        if max(map(abs, m)) > 5.5 / math.sqrt(len(z) / 2) + 0.1:
            v.add("offset", "mean of (measured - true) / XERR, YERR = %.2f %.2f for %d spots" % (m[0], m[1], len(z) // 2))

    def detect(self, w, v, plan, f, s, pulls):
        """detectspots called with an array."""
        w.probe("detect")
        r = random.Random(s["s"])
        im = f.image
        if in_image(plan):
            im = (im.astype(float) - bias_image(plan))
        kind = r.choice(["as", "as", "strided", "readonly", "fortran"])
        if kind == "strided":
            big = np.zeros((im.shape[0] * 2, im.shape[1] * 2), im.dtype)
            big[::2, ::2] = im
            im = big[::2, ::2]
        elif kind == "fortran":
            im = np.asfortranarray(im)
        elif kind == "readonly":
            im = im.copy()
            im.flags.writeable = False
        low = s["min"] == "low"
        before = im.tobytes()

        def body(seed):
            from desimeter.detectspots import detectspots
            np.random.seed(seed)
            k = {"min_counts_per_spot": 2000, "min_counts_per_pixel": 60} if low else {"min_counts_per_spot": 10000}
            t = detectspots(im, psf_sigma=plan["sigma"], **k)
            return {c: np.array(t[c], float) for c in ("XPIX", "YPIX", "XERR", "YERR", "COUNTS")}
        what = "detectspots (%s %s%s, sigma %g)" % (im.dtype, kind, " low" if low else "", plan["sigma"])
        p = w.new_process("detect")
        res = [w.call(p, body, q) for q in (s["s"], s["s"] + 1)]
        n = 0
        for st, t in res:
            if st == "crash":
                return 0
            if st != "ok":
                if not f.spots and not (low and f.faint):
                    w.probe("empty")
                else:
                    v.add("failed", "%s: %s %s" % (what, st, read_exc(t) if st == "exc" else t))
                return 0
            n += self.compare(w, v, plan, f, t, low, True, what, pulls)
        if im.tobytes() != before:
            v.add("input-modified", "%s: the image of the caller is changed" % what)
        a, b = res[0][1], res[1][1]
        if not v and len(a["XPIX"]) == len(b["XPIX"]) > 0 and not f.edge and not f.cosmics:
            from scipy.spatial import cKDTree
            d = cKDTree(np.c_[a["XPIX"], a["YPIX"]]).query(np.c_[b["XPIX"], b["YPIX"]])[0]
            if np.any(d > 0.4 * b["XERR"] + 1e-3):
                v.add("random-state", "%s: centroids depend on the state of the random generator (by %.4f)" % (what, d.max()))
        return n

    # ------------------------------------------------------------------
    def run_full(self, plan, w, v, faults):
        """A sequence of frames through the match: each frame gets its own positions and identities."""
        ex = []
        for k, f in enumerate(plan["frames"][:-1]):
            e = I.Exposure(self.inst, random.Random("p13x/%d" % f["seed"]))
            ex.append(e)
        ex = ex[:3]
        infile = w.path("work", "seq.fits")
        self.write(plan, w, infile, [e.image(np.random.RandomState(plan["frames"][k]["seed"]), noise=6.0, pedestal=500.0) for k, e in enumerate(ex)])
        out = w.path("work", "new", "seq.csv")
        tx = w.path("work", "other", "tx.json")
        n = 0
        w.install()
        w.faults = faults
        try:
            a = ["-i", infile, "-o", out, "--sequence", "--make-directory", "--output-transform", tx]
            for again in (False, True):
                f0 = sum(w.fired.values())
                st, val = w.run_script(w.new_process("seq"), "desi_fvc_proc", a)
                code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
                hit = sum(w.fired.values()) > f0
                w.state("match", len(ex), sorted(w.fired), code)
                if code:
                    w.probe("reported" if hit else "failed")
                    if not hit:
                        v.add("failed", "sequence with match: %s %s" % (st, read_exc(val) if st == "exc" else val))
                        break
                    w.clear_faults()
                    continue
                for k, e in enumerate(ex):
                    b = w.durable(out.replace(".csv", "-f%04d.csv" % (plan["first"] + k)))
                    try:
                        rows = list(csv.DictReader(io.StringIO(b.decode())))
                        t = {c: [float(r[c]) for r in rows] for c in ("XPIX", "YPIX", "LOCATION", "PINHOLE_ID", "X_FP", "Y_FP")}
                    except Exception as x:
                        v.add("no-output", "sequence with match, frame %d: %s" % (k, read_exc(x)))
                        break
                    why = truth_check(t, e, tol_fp=0.05)
                    if why:
                        v.add("wrong-match", "sequence with match, frame %d of %d: %s" % (k, len(ex), why))
                        break
                    n += 1
                if not v and w.durable(tx) is None:
                    v.add("no-transform", "sequence with match: no %s" % tx)
                if n:
                    w.probe("match")
                break
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=1, evals=n)


def hit_any(w):
    return any(w.fired.values())


PROP = P()
