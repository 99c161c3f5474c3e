"""P19  average_coordinates: the mean position of each spot over exposures with drift, lost and false spots."""
import csv
import io
import os
import random
import warnings

import numpy as np

from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder


def field(plan):
    """True spot positions on a jittered grid, at least 20 units apart, and false detections off the grid."""
    r = random.Random("field/%d" % plan["seed"])
    n = plan["nspot"]
    side = int(np.ceil(np.sqrt(n)))
    step = 60.0
    cells = [(i, j) for i in range(side) for j in range(side)]
    r.shuffle(cells)
    return [(100 + i * step + r.uniform(-12, 12), 80 + j * step + r.uniform(-12, 12)) for i, j in cells[:n]], side, step


def tables(plan):
    """Rows of each exposure: (true index or None, x, y, counts), x and y in the frame of that exposure."""
    sp, side, step = field(plan)
    c = 100 + side * step / 2
    out = []
    gaps = [(i, j) for i in range(side) for j in range(side)]
    random.Random("gaps/%d" % plan["seed"]).shuffle(gaps)
    for k, e in enumerate(plan["exps"]):
        r = random.Random("exp/%d/%d" % (plan["seed"], e["seed"]))
        rows = []
        for i, (x, y) in enumerate(sp):
            if r.random() < e["lost"]:
                continue
            a = np.radians(e["rot"])
            u, t = (x - c) * e["scale"], (y - c) * e["scale"]
            xx = c + u * np.cos(a) - t * np.sin(a) + e["dx"] + plan["noise"] * r.gauss(0, 1)
            yy = c + u * np.sin(a) + t * np.cos(a) + e["dy"] + plan["noise"] * r.gauss(0, 1)
            rows.append((i, round(xx, 6), round(yy, 6), round(r.uniform(1e3, 1e5), 2)))
        for _ in range(e["false"]):       # between the grid positions
            if not gaps:
                break
            i, j = gaps.pop()
            rows.append((None, round(100 + (i + 0.5) * step + r.uniform(-5, 5), 6), round(80 + (j + 0.5) * step + r.uniform(-5, 5), 6), 500.0))
        r.shuffle(rows)
        out.append(rows)
    return out


class P(Prop):
    id = "P19"
    rule = ("one case = one simulated series of exposures of the same spots with camera drift, lost and false spots, averaged by the script or "
            "the function, in several orders, under disk faults; non-trivial = averaged positions were compared")
    state_measure = "(number of exposures, noise, lost and false spots, entry point, faults, outcome)"
    real = ["averagecoord", "bin/average_coordinates", "match.match_same_system", "simplecorr"]
    stubs = ["spots and camera motion", "disk faults", "process deaths", "clock"]
    assumptions = ["spots are at least 20 pixels apart and the camera moves by less than 4.5 pixels"]
    must_probe = ["averaged", "lost", "false", "script", "api", "unsorted", "reported", "enospc", "eio", "crash", "keys"]
    tiers = {"quick": {"runs": 900, "cap_s": 45, "run_timeout": 100, "min_s": 35},
             "thorough": {"runs": 30000, "cap_s": 1200, "run_timeout": 100, "min_s": 120}}

    def setup(self, base):
        install_finder()
        for n in ("astropy.table", "astropy.io.ascii", "scipy.spatial"):
            __import__(n)

    def gen(self, seed, tier):
        r = random.Random("p19gen/%d" % seed)
        n = r.choice([1, 2, 3, 3, 5, 8])
        exps = []
        for k in range(n):
            exps.append({"seed": r.randrange(1 << 30), "dx": round(r.uniform(-1.5, 1.5), 3), "dy": round(r.uniform(-1.5, 1.5), 3),
                         "rot": round(r.gauss(0, 0.01), 4), "scale": round(1 + r.gauss(0, 5e-5), 7),
                         "lost": r.choice([0, 0, 0.05, 0.2]), "false": r.choice([0, 0, 1, 6])})
        faults = []
        if r.random() < 0.4:
            for _ in range(r.randint(1, 2)):
                k = r.choice(["enospc", "eio", "short", "emfile", "crash", "torn"])
                faults.append({"kind": k, "at": r.randrange(r.choice([1, 4, 9])), "frac": round(r.random(), 3), "once": True,
                               "ops": {"enospc": ["write", "open_w"], "short": ["write"], "torn": ["write"], "emfile": ["open_r", "open_w"],
                                       "eio": r.choice([["open_r"], ["write"]]), "crash": ["write", "open_w", "open_r"]}[k]})
        return {"seed": seed, "exps": exps, "nspot": r.choice([12, 40, 120, 300]), "noise": r.choice([0, 0, 0.02, 0.1]),
                "keys": r.choice([["XPIX", "YPIX"], ["XPIX", "YPIX"], ["X_FP", "Y_FP"]]), "faults": faults,
                "steps": [{"op": r.choice(["script", "api"]), "order": r.choice(["as", "as", "shuffle", "repeat"]), "s": r.randrange(1 << 20)}
                          for _ in range(r.randint(1, 3))], "_lists": ["exps", "steps", "faults"]}

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        w.install()
        n = 0
        kx, ky = plan["keys"]
        try:
            data = tables(plan)
            names, raw = [], []
            for k, rows in enumerate(data):
                s = io.StringIO()
                c = csv.writer(s, lineterminator="\n")
                c.writerow(["LABEL", kx, ky, "COUNTS"])
                for i, (t, x, y, q) in enumerate(rows):
                    c.writerow(["s%d" % i, repr(float(x)), repr(float(y)), q])
                raw.append(s.getvalue().encode())
                names.append(w.put(w.path("work", "in", "fvc spots %d.csv" % k), raw[-1]))
            w.faults = faults
            api = w.new_process("api")
            for ns, s in enumerate(plan["steps"]):
                if v:
                    break
                order = list(range(len(data)))
                if s["order"] == "shuffle":
                    random.Random(s["s"]).shuffle(order)
                    w.probe("unsorted")
                if s["order"] == "repeat":
                    order.append(random.Random(s["s"]).choice(order))
                if not order:
                    continue
                f0 = sum(w.fired.values())
                out = w.path("work", "mean %d.csv" % ns)
                what = "%s of %d exposures (%s, noise %g)" % (s["op"], len(order), s["order"], plan["noise"])
                if kx != "XPIX":
                    w.probe("keys")
                after = None
                if s["op"] == "script":
                    w.probe("script")
                    st, val = w.run_script(w.new_process("avg%d" % ns), "average_coordinates", ["-i"] + [names[i] for i in order] + ["-o", out] +
                                           (["--xkey", kx, "--ykey", ky] if kx != "XPIX" else []))
                    code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
                    b = w.durable(out)
                    try:
                        got = list(csv.DictReader(io.StringIO(b.decode()))) if b is not None else None
                    except Exception:
                        got = None
                else:
                    w.probe("api")
                    if api.dead:
                        api = w.new_process("api%d" % ns)

                    def body():
                        from astropy.table import Table
                        from desimeter.averagecoord import average_coordinates
                        tt = [Table.read(names[i]) for i in order]
                        t = average_coordinates(tt, kx, ky)
                        return [dict(zip(t.colnames, r)) for r in t], [[(float(r[kx]), float(r[ky])) for r in q] for q in tt]
                    st, val = w.call(api, body)
                    code = 0 if st == "ok" else 1
                    got, after = val if st == "ok" else (None, None)
                hit = sum(w.fired.values()) > f0
                w.state(len(order), plan["noise"], s["op"], s["order"], sorted(w.fired), code)
                if code:
                    if not hit:
                        v.add("failed", "%s: %s %s" % (what, st, read_exc(val) if st == "exc" else val))
                    else:
                        w.probe("reported")
                    continue
                n += self.judge(w, v, plan, [data[i] for i in order], got, what)
                if after is not None and any(abs(a[0] - r[1]) + abs(a[1] - r[2]) > 1e-9
                                             for i, q in zip(order, after) for a, r in zip(q, data[i])):
                    v.add("argument-modified", "%s: the tables of the caller are changed" % what)
            for f, b in zip(names, raw):
                if w.durable(f) != b:
                    v.add("input-modified", "%s changed" % f)
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=len(plan["steps"]), evals=n)

    @staticmethod
    def judge(w, v, plan, data, got, what):
        kx, ky = plan["keys"]
        if got is None or len(got) != len(data[0]):
            v.add("rows", "%s: %s rows, the first table has %d" % (what, None if got is None else len(got), len(data[0])))
            return 0
        idx = [{t: (x, y) for t, x, y, q in rows if t is not None} for rows in data]
        common = sorted(set.intersection(*[set(d) for d in idx]))
        if len(common) < 6:
            return 0
        if any(len(d) < plan["nspot"] for d in idx):
            w.probe("lost")
        if any(t is None for rows in data for t, x, y, q in rows):
            w.probe("false")
        # the transform from each exposure to the first: least squares on the spots seen in both
        X = np.zeros((2, len(common)))
        x1 = np.array([idx[0][t] for t in common]).T
        for d in idx:
            x2 = np.array([d[t] for t in common]).T
            A = np.array([np.ones(len(common)), x2[0], x2[1]])
            X += np.array([A.T.dot(np.linalg.lstsq(A.T, x1[k], rcond=None)[0]) for k in (0, 1)]) / len(idx)
        tol = 2e-4 + plan["noise"] * (0.35 + 4.0 / np.sqrt(len(common)))
        at = {t: k for k, t in enumerate(common)}
        for i, (g, (t, x, y, q)) in enumerate(zip(got, data[0])):
            gx, gy = float(g[kx]), float(g[ky])
            if g["LABEL"] != "s%d" % i or abs(float(g["COUNTS"]) - q) > 1e-6:
                v.add("row-mixed", "%s: row %d has other columns" % (what, i))
                return 1
            if t in at:
                ex, lim = X[:, at[t]], tol
            else:
                ex, lim = (x, y), 1e-5
            if not (abs(gx - ex[0]) <= lim and abs(gy - ex[1]) <= lim):
                v.add("wrong-mean" if t in at else "unmatched-changed",
                      "%s: spot %s at %.4f %.4f, expected %.4f %.4f (%d common spots)" % (what, t, gx, gy, ex[0], ex[1], len(common)))
                return 1
        w.probe("averaged")
        return 1


PROP = P()
