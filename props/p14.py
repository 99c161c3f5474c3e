"""P14  turbulence correction: the correlated displacement is removed, the own displacement of a positioner is kept."""
import csv
import io
import os
import random
import warnings

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder

STATS = []


def waves(rng, x, y, A, l, curlfree=False, nw=160):
    """A random displacement field of standard deviation A and correlation length l at x,y."""
    k = np.array([[rng.gauss(0, 1), rng.gauss(0, 1)] for _ in range(nw)]) / l
    ph = np.array([[rng.uniform(0, 2 * np.pi) for _ in range(nw)] for _ in range(2)])
    arg = np.outer(x, k[:, 0]) + np.outer(y, k[:, 1])
    if curlfree:
        s = np.sin(arg + ph[0]) * np.sqrt(2 / nw) * A * l
        return -(s * k[:, 0]).sum(1), -(s * k[:, 1]).sum(1)
    return [(np.sqrt(2 / nw) * A * np.cos(arg + ph[q])).sum(1) for q in (0, 1)]


def kern(x1, y1, x2, y2, A, l):
    return A * A * np.exp(-((x1[None, :] - x2[:, None]) ** 2 + (y1[None, :] - y2[:, None]) ** 2) / (2 * l * l))


def loo(x, y, d, s, A, l):
    """Best estimate of the field at each point from the other points (true parameters)."""
    ki = np.linalg.inv(kern(x, y, x, y, A, l) + s * s * np.eye(len(x)))
    return d - ki.dot(d) / np.diag(ki)


def posterior(x, y, d, xc, yc, s, A, l):
    return kern(x, y, xc, yc, A, l).dot(np.linalg.solve(kern(x, y, x, y, A, l) + s * s * np.eye(len(x)), d))


def gradkern(x, y, A, l):
    """Covariance of the gradient of a random potential."""
    u, t = (x[None, :] - x[:, None]) / l, (y[None, :] - y[:, None]) / l
    g = A * A * np.exp(-(u * u + t * t) / 2)
    return np.block([[(1 - u * u) * g, -u * t * g], [-u * t * g, (1 - t * t) * g]])


def rms(*d):
    return float(np.sqrt(np.mean([np.mean(np.asarray(q) ** 2) for q in d])))


class P(Prop):
    id = "P14"
    rule = ("one case = a sequence of exposures through simulated dome turbulence, corrected by one process with each of the methods; "
            "non-trivial = the error of a correction was compared with the true displacement field")
    state_measure = "(method, number of fibres, amplitude and scale of the field, options, faults fired, outcome)"
    real = ["turbulence", "processfvc (turbulence options)", "match_positioners", "fvc2fp", "findfiducials"]
    stubs = ["turbulence, fibre positions and measurement noise", "optics (frozen reference transforms)", "disk faults"]
    assumptions = ["displacements of 4 to 20 microns correlated over 25 to 100 mm, independent errors of 1 to 4 microns"]
    must_probe = ["gp", "pol", "stat", "files", "grad", "cli", "cli_pol", "broken", "nonfinite", "missing", "own", "permuted", "repeat", "reported"]
    tiers = {"quick": {"runs": 400, "cap_s": 70, "run_timeout": 150, "min_s": 50},
             "thorough": {"runs": 12000, "cap_s": 2000, "run_timeout": 200, "min_s": 150}}

    def setup(self, base):
        install_finder()
        for n in ("astropy.table", "astropy.io.ascii", "scipy.spatial", "scipy.linalg", "scipy.optimize", "astropy.stats"):
            __import__(n)
        self.inst = I.MiniInstrument(base)
        import dref.io as dio
        m = dio.load_metrology()
        i = np.array(m["DEVICE_TYPE"]).astype(str) == "POS"
        self.x, self.y, self.loc = (np.array(m[k])[i] for k in ("X_FP", "Y_FP", "LOCATION"))

    def gen(self, seed, tier):
        r = random.Random("p14gen/%d" % seed)
        steps = []
        for _ in range(r.randint(1, 3)):
            op = r.choice(["gp", "gp", "pol", "stat", "stat", "files", "cli"])
            s = {"op": op, "seed": r.randrange(1 << 30), "A": round(r.uniform(0.004, 0.02), 4), "l": round(r.uniform(25, 100), 1),
                 "s": round(r.uniform(0.001, 0.004), 4), "n": r.choice([60, 80, 100, 150, 200]), "check": r.choice(["own", "permute", "repeat", "none"])}
            if op == "files":
                s.update(mode=r.choice(["independent", "independent", "gradwavefront"]), n=r.choice([40, 60, 90]), self=r.random() < 0.5,
                         missing=r.choice([0, 0.1, 0.3]), unknown=r.choice([0, 0.1]))
            if op == "stat":
                s.update(broken=r.choice([0, 1, 4]), nonfinite=r.choice([0, 0, 1, 3]), nanc=r.choice([0, 0, 2]), scale=r.choice([1, 1, 1, 14.0]),
                         good=r.random() < 0.6)
            if op == "cli":
                s.update(pol=r.random() < 0.5, A=round(r.uniform(0.01, 0.025), 4), s=0.001, l=round(r.uniform(40, 70), 1))
            steps.append(s)
        faults = []
        if r.random() < 0.3:
            k = r.choice(["eio", "emfile", "enospc", "crash", "short"])
            faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 6])), "frac": round(r.random(), 3), "once": True,
                           "ops": {"enospc": ["write", "open_w"], "short": ["write"], "emfile": ["open_r", "open_w"],
                                   "eio": r.choice([["open_r"], ["write"]]), "crash": ["write", "open_w", "open_r"]}[k]})
        return {"seed": seed, "steps": steps, "faults": faults, "_lists": ["steps", "faults"]}

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        w.install()
        n = 0
        try:
            w.use_data(self.inst.datadir, inside=False)
            proc = w.new_process("ics")
            w.faults = faults
            for k, s in enumerate(plan["steps"]):
                if v:
                    break
                if proc.dead:
                    proc = w.new_process("ics%d" % k)
                f0 = sum(w.fired.values())
                st, val = getattr(self, "op_" + s["op"])(w, v, proc, s, k)
                hit = sum(w.fired.values()) > f0
                w.log(s["op"], s["seed"], st)
                w.state(s["op"], s["n"], int(s["A"] * 500), int(s["l"] / 25), s["check"], sorted(w.fired), st)
                if st != "ok":
                    if hit:
                        w.probe("reported")
                    else:
                        v.add("failed", "%s: %s %s" % (s["op"], st, read_exc(val) if st == "exc" else val))
                else:
                    n += 1
                    w.probe(s["op"])
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=len(plan["steps"]), evals=n)

    # ---- a patch of the focal plane seen through turbulence --------------
    def patch(self, s, n, thin=0.3, curlfree=False):
        r = random.Random("patch/%d" % s["seed"])
        c = r.randrange(len(self.x))
        o = np.argsort(np.hypot(self.x - self.x[c], self.y - self.y[c]))[:int(n / (1 - thin)) + 1]
        o = sorted(r.sample(o.tolist(), n))
        r.shuffle(o)
        x0 = self.x[o] + np.array([r.uniform(-3, 3) for _ in o])
        y0 = self.y[o] + np.array([r.uniform(-3, 3) for _ in o])
        tx, ty = waves(r, x0, y0, s["A"], s["l"], curlfree)
        nx = np.array([r.gauss(0, s["s"]) for _ in o])
        ny = np.array([r.gauss(0, s["s"]) for _ in o])
        return r, self.loc[o], x0, y0, tx, ty, nx, ny

    def op_gp(self, w, v, proc, s, k):
        return self.plain(w, v, proc, s, "correct")

    def op_pol(self, w, v, proc, s, k):
        return self.plain(w, v, proc, s, "correct_with_pol")

    def plain(self, w, v, proc, s, fn):
        r, loc, x0, y0, tx, ty, nx, ny = self.patch(s, s["n"])
        n = len(x0)
        x, y = x0 + tx + nx, y0 + ty + ny
        what = "%s of %d fibres, field %g microns over %g mm, errors of %g microns" % (fn, n, 1e3 * s["A"], s["l"], 1e3 * s["s"])

        def call(x, y, x0, y0):
            def body():
                import desimeter.turbulence as T
                a = [np.array(q) for q in (x, y, x0, y0)]
                b = [q.copy() for q in a]
                out = [np.array(q, dtype=float) for q in getattr(T, fn)(*a)]
                return out, all(np.array_equal(p, q) for p, q in zip(a, b))
            return w.call(proc, body)
        st, val = call(x, y, x0, y0)
        if st != "ok":
            return st, val
        (cx, cy), same = val
        if not same:
            v.add("input-modified", "%s changes its arguments" % what)
        if cx.shape != x.shape or not np.all(np.isfinite(cx + cy)):
            v.add("shape", "%s gives %s values" % (what, cx.shape))
            return st, None
        gx, gy = x - cx, y - cy
        e = rms(gx - tx, gy - ty)
        opt = rms(loo(x, y, x - x0, s["s"], s["A"], s["l"]) - tx, loo(x, y, y - y0, s["s"], s["A"], s["l"]) - ty)
        A = rms(tx, ty)
        lim = 1.6 * opt + 0.0005 if fn == "correct" else 3 * opt + (0.22 + 0.45 * min(1, 30 / s["l"]) ** 2) * A + 0.0005
        STATS.append((fn, e / lim, e / opt, (e - opt) / A, e / A, s["A"], s["l"], s["s"], n))
        if not e < lim:
            v.add("bad-correction", "%s: the error of the correction is %.2f microns, %.2f for the best estimate" % (what, 1e3 * e, 1e3 * opt))
            return st, None
        if s["check"] == "repeat":
            st, val = call(x, y, x0, y0)
            if st == "ok" and not (np.array_equal(val[0][0], cx) and np.array_equal(val[0][1], cy)):
                v.add("not-repeatable", "%s gives something else the second time" % what)
            w.probe("repeat")
        if s["check"] == "permute" and fn == "correct":
            p = list(range(n))
            r.shuffle(p)
            st, val = call(x[p], y[p], x0[p], y0[p])
            if st == "ok":
                d = np.hypot(val[0][0] - cx[p], val[0][1] - cy[p])
                STATS.append((fn + "-perm", float(d.max() / opt), rms(d) / opt))
                w.probe("permuted")
                if not rms(d) < 0.05 * opt + 1e-5:
                    v.add("order-dependent", "%s: %.3f microns from the result with the rows in another order" % (what, 1e3 * rms(d)))
        if s["check"] == "own":
            i = r.randrange(n)
            a = r.uniform(0, 2 * np.pi)
            ux, uy = x0.copy(), y0.copy()
            step = 0.006
            ux[i] -= step * np.cos(a)
            uy[i] -= step * np.sin(a)
            st, val = call(x, y, ux, uy)
            if st == "ok":
                d = np.hypot(val[0][0] - cx, val[0][1] - cy)
                STATS.append((fn + "-own", float(d[i] / step), float(np.delete(d, i).max() / step), s["A"], s["s"], n))
                w.probe("own")
                if not d[i] < 0.15 * step + 0.1 * opt:
                    v.add("own-displacement", "%s: a displacement of one fibre by %g microns changes its own correction by %.2f" % (what, 1e3 * step, 1e3 * d[i]))
        return st, None

    def op_stat(self, w, v, proc, s, k):
        r, loc, x0, y0, tx, ty, nx, ny = self.patch(s, s["n"])
        n = len(x0)
        ns = r.randint(n // 4, n // 2)
        sc = s["scale"]
        bad = r.sample(range(ns), s["broken"])
        nan = r.sample(sorted(set(range(ns)) - set(bad)), s["nonfinite"])
        q = r.uniform(0.04, 0.3)
        for b in bad:
            a = r.uniform(0, 2 * np.pi)
            nx[b] += q * np.cos(a)
            ny[b] += q * np.sin(a)
        x, y = (x0 + tx + nx) * sc, (y0 + ty + ny) * sc
        x0s, y0s = x0[:ns] * sc, y0[:ns] * sc
        for b in nan:
            (x if r.random() < 0.5 else y)[b] = r.choice([np.nan, np.nan, np.inf])
            w.probe("nonfinite")
        xc, yc = x[ns:].copy(), y[ns:].copy()
        nanc = r.sample(range(len(xc)), s["nanc"])
        xc[nanc] = np.nan
        what = "correct_using_stationary with %d stationary fibres, %d broken, %d not measured, %d others, field of %g microns over %g mm%s" % (
            ns, len(bad), len(nan), n - ns, 1e3 * s["A"], s["l"], ", scale %g" % sc if sc != 1 else "")
        clip = r.choice([0.01, 0.01, 0.02]) if sc == 1 else 0.01 * sc
        kw = {} if clip == 0.01 else {"clip_resid": clip}
        if sc != 1:
            kw["scale_covar"] = sc

        def body():
            import desimeter.turbulence as T
            a = [np.array(p) for p in (x[:ns], y[:ns], x0s, y0s, xc, yc)]
            b = [p.copy() for p in a]
            out = T.correct_using_stationary(*a, return_good=s["good"], **kw)
            return out, all(np.array_equal(p, q, equal_nan=True) for p, q in zip(a, b))
        st, val = w.call(proc, body)
        if st != "ok":
            return st, val
        out, same = val
        if not same:
            v.add("input-modified", "%s changes its arguments" % what)
        if bad:
            w.probe("broken")
        gx, gy = np.array(out[0]) / sc, np.array(out[1]) / sc
        okc = np.isfinite(xc)
        if gx.shape != xc.shape or not np.array_equal(np.isfinite(gx + gy), okc):
            v.add("shape", "%s: %d corrections" % (what, int(np.isfinite(gx + gy).sum())))
            return st, None
        if s["good"]:
            g = np.array(out[2])
            if g.shape != (ns,) or g.dtype != bool:
                v.add("good-mask", "%s: the mask of good fibres is %s of shape %s" % (what, g.dtype, g.shape))
                return st, None
            if g[nan].any() or g[bad].any():
                v.add("broken-used", "%s: %s are in use" % (what, [b for b in bad + nan if g[b]]))
            STATS.append(("mask%d" % (s["A"] / s["l"] < 2.5e-4), (ns - len(bad) - len(nan) - int(g.sum())) / ns, s["A"], s["l"], s["s"]))
            if s["A"] / s["l"] < 2.5e-4 and ns >= 25 and g.sum() < 0.5 * (ns - len(bad) - len(nan)):
                v.add("good-rejected", "%s: only %d good fibres are in use" % (what, g.sum()))
        use = np.array([b for b in range(ns) if b not in bad and b not in nan])
        e = rms(gx[okc] - tx[ns:][okc], gy[okc] - ty[ns:][okc])
        o = [posterior(x[use] / sc, y[use] / sc, (x[use] - x0s[use]) / sc if j == 0 else (y[use] - y0s[use]) / sc, xc[okc] / sc, yc[okc] / sc, s["s"], s["A"], s["l"])
             for j in (0, 1)]
        opt = rms(o[0] - tx[ns:][okc], o[1] - ty[ns:][okc])
        f = [posterior(x[use] / sc, y[use] / sc, (x[use] - x0s[use]) / sc if j == 0 else (y[use] - y0s[use]) / sc, xc[okc] / sc, yc[okc] / sc, 5e-3, 5e-3, 50.)
             for j in (0, 1)]
        ef = rms(f[0] - tx[ns:][okc], f[1] - ty[ns:][okc])
        A = rms(tx[ns:], ty[ns:])
        STATS.append(("stat", e / opt, e / ef, (e - ef) / A, e / A, len(bad), s["l"], s["A"], ns))
        lim = 1.5 * max(opt, ef) + 0.2 * A + 0.0005
        STATS.append(("statlim", e / lim))
        if not e < lim:
            v.add("bad-correction", "%s: the error of the correction is %.2f microns, %.2f with the good fibres" % (what, 1e3 * e, 1e3 * ef))
        return st, None

    def op_files(self, w, v, proc, s, k):
        grad = s["mode"] == "gradwavefront"
        r, loc, x0, y0, tx, ty, nx, ny = self.patch(s, s["n"], curlfree=grad)
        n = len(x0)
        x, y = x0 + tx + nx, y0 + ty + ny
        me = [i for i in range(n) if r.random() >= s["missing"]]
        ex = [i for i in range(n) if r.random() >= s["unknown"]]
        r.shuffle(ex)
        files = []
        for nm, ii, a, b in (("expected", ex, x0, y0), ("measured", me, x, y)):
            t = "LOCATION,X_FP,Y_FP,COUNTS\n" + "".join("%d,%r,%r,%d\n" % (loc[i], float(a[i]), float(b[i]), i) for i in ii)
            files.append(w.put(w.path("work", "%s%d.csv" % (nm, k)), t.encode()))
        if len(me) < n or len(ex) < n:
            w.probe("missing")
        what = "solve_files, %s, %d fibres of %d" % (s["mode"], len(me), n)

        def body():
            import desimeter.turbulence as T
            kw = {"excludeself": True} if s["self"] else {}
            t, res = T.solve_files(files[0], files[1], mode=s["mode"], **kw)
            return {c: np.array(t[c]).tolist() for c in t.colnames}
        st, t = w.call(proc, body)
        if st != "ok":
            return st, t
        if t["LOCATION"] != [int(loc[i]) for i in me] or t["COUNTS"] != me or any(abs(a - x[i]) > 1e-9 for a, i in zip(t["X_FP"], me)):
            v.add("rows", "%s: the rows of the measured positions are changed" % what)
            return st, None
        common = np.array([i in set(ex) for i in me])
        d = {c: np.array(t[c], float) for c in ("XNEW", "YNEW", "DXTURB", "DYTURB")}
        for c in d:
            if not np.array_equal(np.isfinite(d[c]), common):
                v.add("unmatched", "%s: %s is given for %d fibres, %d have an expected position" % (what, c, np.isfinite(d[c]).sum(), common.sum()))
                return st, None
        ii = np.array(me)[common]
        gx, gy = d["DXTURB"][common], d["DYTURB"][common]
        if not (np.allclose(d["XNEW"][common], x[ii] - gx, rtol=0, atol=1e-9) and np.allclose(d["YNEW"][common], y[ii] - gy, rtol=0, atol=1e-9)):
            v.add("new-position", "%s: XNEW, YNEW are not the positions minus DXTURB, DYTURB" % what)
        e = rms(gx - tx[ii], gy - ty[ii])
        A = rms(tx[ii], ty[ii])
        if grad:
            w.probe("grad")
        if grad:
            K = gradkern(x0[ii], y0[ii], s["A"], s["l"])
            dd = np.concatenate([(x - x0)[ii], (y - y0)[ii]])
            if s["self"]:
                ki = np.linalg.inv(K + s["s"] ** 2 * np.eye(len(K)))
                p = dd - ki.dot(dd) / np.diag(ki)
            else:
                p = K.dot(np.linalg.solve(K + s["s"] ** 2 * np.eye(len(K)), dd))
            opt = rms(p - np.concatenate([tx[ii], ty[ii]]))
        else:
            opt = rms(loo(x0[ii], y0[ii], (x - x0)[ii], s["s"], s["A"], s["l"]) - tx[ii], loo(x0[ii], y0[ii], (y - y0)[ii], s["s"], s["A"], s["l"]) - ty[ii])
        STATS.append(("files-" + s["mode"] + ("-loo" if s["self"] else ""), e / opt, e / A, s["A"], s["l"], s["s"], len(ii)))
        if not e < (1.45 * opt + 0.0002 if grad else 1.6 * opt + 0.0005):
            v.add("bad-correction", "%s%s: the error is %.2f microns, %.2f for the best estimate (field of %g microns over %g mm, errors of %g)" % (
                what, ", without the fibre itself" if s["self"] else "", 1e3 * e, 1e3 * opt, 1e3 * s["A"], s["l"], 1e3 * s["s"]))
        return st, None

    def op_cli(self, w, v, proc, s, k):
        r = random.Random("cli/%d" % s["seed"])
        ex = I.Exposure(self.inst, r, rmax=3.0, amp=0.5)
        pos = ex.pin == 0
        tx, ty = waves(r, ex.xfp, ex.yfp, s["A"], s["l"])
        own = np.array([[r.gauss(0, 0.02), r.gauss(0, 0.02)] for _ in range(ex.n)])     # true positions are not exactly the expected ones
        ownt = np.where(pos[:, None], own * (np.array([r.random() for _ in range(ex.n)]) < 0.05)[:, None], 0)
        x, y = ex.xfp + ownt[:, 0], ex.yfp + ownt[:, 1]
        ex.xpix, ex.ypix = ex.tx.fp2fvc(x + np.where(pos, tx, 0), y + np.where(pos, ty, 0))
        txt, order = ex.csv(r)
        f = w.put(w.path("work", "spots%d.csv" % k), txt.encode())
        exp = w.put(w.path("work", "exp%d.csv" % k), ("LOCATION,X_FP,Y_FP\n" + "".join(
            "%d,%r,%r\n" % (ex.loc[i], float(ex.xfp[i]), float(ex.yfp[i])) for i in range(ex.n) if pos[i])).encode())
        res = []
        for opt in ([], ["--turbulence-correction" + ("-with-pol" if s["pol"] else "")]):
            out = w.path("work", "out%d%d.csv" % (k, len(opt)))
            st, val = w.run_script(w.new_process("fvc%d" % k), "desi_fvc_proc", ["-i", f, "-o", out, "--expected-positions", exp] + opt)
            code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
            b = w.durable(out)
            if code or b is None:
                return "failed", val if st != "exc" else read_exc(val)
            rows = list(csv.DictReader(io.StringIO(b.decode())))
            if any(None in q or None in q.values() for q in rows):
                return "failed", "incomplete"
            res.append(rows)
        if s["pol"]:
            w.probe("cli_pol")
        what = "desi_fvc_proc with %s, field of %g microns over %g mm" % (opt[0], 1e3 * s["A"], s["l"])
        if len(res[0]) != len(res[1]):
            v.add("rows", "%s: %d rows, %d without" % (what, len(res[1]), len(res[0])))
            return "ok", None
        at = {int(ex.loc[i]): i for i in range(ex.n) if pos[i]}
        dr, dc, ii = [], [], []
        for a, b in zip(*res):
            for c in a:
                if c not in ("X_FP", "Y_FP") and a[c] != b.get(c):
                    v.add("other-columns", "%s changes %s" % (what, c))
                    return "ok", None
            i = at.get(int(float(a["LOCATION"])))
            p, q = np.array([[float(z["X_FP"]), float(z["Y_FP"])] for z in (a, b)])
            if i is None:
                if np.abs(p - q).max() > 1e-9:
                    v.add("fiducial-moved", "%s moves a spot of LOCATION %s" % (what, a["LOCATION"]))
                    return "ok", None
                continue
            ii.append(i)
            dr.append(p)
            dc.append(p - q)
        if len(ii) < 0.9 * pos.sum():
            v.add("rows", "%s: %d positioners of %d" % (what, len(ii), pos.sum()))
            return "ok", None
        dr, dc, ii = np.array(dr), np.array(dc), np.array(ii)
        t = np.array([tx[ii], ty[ii]]).T
        for j in (0, 1):
            e, A = rms(dc[:, j] - t[:, j]), rms(t[:, j])
            STATS.append(("cli" + ("-pol" if s["pol"] else ""), e / (A + 0.001), A, s["l"], len(ii)))
            if not e < (0.9 if s["pol"] else 0.5) * (A + 0.001):
                v.add("bad-correction", "%s: the error of the correction is %.2f microns, the turbulence %.2f" % (what, 1e3 * e, 1e3 * A))
        return "ok", None


PROP = P()
