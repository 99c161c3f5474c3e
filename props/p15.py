"""P15  match_positioners: as many spots as possible go to positioners which reach them, ambiguities are found."""
import csv
import io
import math
import os
import random
import warnings

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder

STATS = []
FUDGE = 0.1


class Cells:
    """A patch of the focal plane: positioners, arms, spots."""

    def __init__(self, plan, rows):
        r = random.Random("p15/%d" % plan["seed"])
        ptl = plan["petal"]
        dev = [m for m in rows if m["DEVICE_TYPE"] == "POS" and int(m["PETAL_LOC"]) == ptl]
        c = r.choice(dev)
        dev.sort(key=lambda m: math.hypot(float(m["X_FP"]) - float(c["X_FP"]), float(m["Y_FP"]) - float(c["Y_FP"])))
        self.rows = dev[:plan["npos"]]
        others = [m for m in rows if m["DEVICE_TYPE"] == "POS" and int(m["PETAL_LOC"]) == (ptl + 1) % 10]
        self.other = r.sample(others, 12) + [m for m in rows if m["DEVICE_TYPE"] in ("FIF", "GIF")][:plan["npin"]]
        r.shuffle(self.rows)
        self.id = [m["DEVICE_ID"] for m in self.rows]
        self.x = [float(m["X_FP"]) for m in self.rows]
        self.y = [float(m["Y_FP"]) for m in self.rows]
        self.arms = []
        for _ in self.rows:
            a = (round(r.uniform(2.9, 3.1), 3), round(r.uniform(2.9, 3.1), 3))
            if r.random() < plan["noarm"]:
                a = None
            elif r.random() < plan["long"]:
                a = (round(r.uniform(3.1, 4.5), 3), round(r.uniform(3.1, 4.5), 3))
            elif r.random() < plan["short"]:
                a = (round(r.uniform(1.5, 2.5), 3), round(r.uniform(1.5, 2.5), 3))
            self.arms.append(a)
        if not any(self.arms):
            self.arms[0] = (3., 3.)
        self.spots = []               # x, y, counts, pinhole, label
        for k in range(len(self.rows)):
            if r.random() < plan["dead"]:
                continue
            a = self.arms[k] or (3., 3.)
            t, p = r.uniform(0, 6.2832), r.choice([r.uniform(0, 3.14), r.uniform(0, 0.8), 3.1])
            self.add(r, self.x[k] + a[0] * math.cos(t) + a[1] * math.cos(t + p), self.y[k] + a[0] * math.sin(t) + a[1] * math.sin(t + p), plan,
                     self.id[k] if r.random() < 0.9 else "")
        some = [r.randrange(len(self.rows)) for _ in range(2)]
        for _ in range(plan["stray"]):
            k = r.choice(some) if plan["cluster"] else r.randrange(len(self.rows))
            self.add(r, self.x[k] + r.uniform(-9, 9), self.y[k] + r.uniform(-9, 9), plan, "")
        for _ in range(plan["npin"]):
            k = r.randrange(len(self.rows))
            self.add(r, self.x[k] + r.uniform(-9, 9), self.y[k] + r.uniform(-9, 9), plan, "F00%d" % r.randrange(9), r.randint(1, 4))
        r.shuffle(self.spots)

    def reach(self, plan, calib):
        """Reach of every positioner; calib False: 3+3 mm for all."""
        if not calib:
            return [6. + plan["fudge"]] * len(self.rows)
        known = [a[0] + a[1] + plan["fudge"] for a in self.arms if a]
        return [a[0] + a[1] + plan["fudge"] if a else float(np.median(known)) for a in self.arms]

    def add(self, r, x, y, plan, label, pin=0):
        lim = set()
        for c in (False, True):
            for f in (0, FUDGE, plan["fudge"]):
                lim.update(self.reach(dict(plan, fudge=f), c))
        for _ in range(60):
            d = [math.hypot(x - a, y - b) for a, b in zip(self.x, self.y)]
            mx = max(q[0] + q[1] for q in self.arms if q)
            gap = any(min(d) > m - 2e-3 and min(d) < m + 0.102 for m in (6., mx))   # the cut on the petal has no margin
            if not gap and not any(abs(a - b) < 2e-3 for a in d for b in lim):
                break
            x, y = x + r.uniform(-.05, .05), y + r.uniform(-.05, .05)
        else:
            return
        n = round(r.uniform(1e5, 9e5))
        if r.random() < plan["faint"]:
            n = round(r.uniform(1e3, 7.9e4))
        self.spots.append([x, y, n, pin, label])


def augment(adj, i, match, seen):
    for j in adj[i]:
        if j in seen:
            continue
        seen.add(j)
        if match.get(j) is None or augment(adj, match[j], match, seen):
            match[j] = i
            return True
    return False


def best(adj):
    """A largest matching {spot: positioner}."""
    match = {}
    for i in sorted(adj):
        augment(adj, i, match, set())
    return match


def ambiguous(adj, match):
    """Positioners of the matching which could as well have another spot, or none."""
    out = set()
    for j, i in match.items():
        m = dict(match)
        del m[j]
        a = dict(adj)
        a[i] = [q for q in adj[i] if q != j]
        if any(augment(a, k, m, set()) for k in sorted(set(adj) - set(m.values()))):
            out.add(i)
    return out


class P(Prop):
    id = "P15"
    rule = ("one case = one simulated patch of the focal plane with dead fibres, unknown, long and short arms, faint, false and pinhole spots, whose spots "
            "are assigned in several row orders by match_positioners and by desi_print_ambigous_groups under disk faults; non-trivial = an assignment was compared")
    state_measure = "(positioners, spots, size of the matching, ambiguous positioners, entry point, options, faults, outcome)"
    real = ["py/desimeter/match_positioners.py", "bin/desi_print_ambigous_groups", "io.load_metrology", "astropy table reader"]
    stubs = ["positioners and camera", "disk faults", "process deaths"]
    assumptions = ["no spot is within 2 um of the reach of a positioner"]
    must_probe = ["api", "script", "ambiguous", "unique", "unassigned_spot", "unassigned_pos", "noarm", "static", "nocalib", "petal", "reported", "eio", "crash",
                  "pinhole", "faint", "alternatives", "fiducials"]
    tiers = {"quick": {"runs": 1500, "cap_s": 50, "run_timeout": 100, "min_s": 35},
             "thorough": {"runs": 40000, "cap_s": 1200, "run_timeout": 100, "min_s": 120}}

    def setup(self, base):
        install_finder()
        for n in ("astropy.table", "astropy.io.ascii", "scipy.optimize", "scipy.spatial"):
            __import__(n)
        self.dd = os.path.join(base, "p15data")
        I.make_datadir(self.dd)
        with open(os.path.join(self.dd, "fp-metrology.csv"), newline="") as f:
            rd = csv.DictReader(f)
            self.rows = list(rd)
            self.fields = rd.fieldnames

    def gen(self, seed, tier):
        r = random.Random("p15gen/%d" % seed)
        steps = [{"op": r.choice(["api", "api", "script"]), "s": r.randrange(1 << 20), "alt": r.random() < 0.8, "static": r.random() < 0.3,
                  "calib": r.random() < 0.7, "extra": r.random() < 0.4, "blank": r.random() < 0.4, "thresh": r.choice([None, None, 200000]), "col": r.random() < 0.3}
                 for _ in range(r.randint(1, 3))]
        faults = []
        if r.random() < 0.4:
            k = r.choice(["eio", "emfile", "crash"])
            faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 8])), "frac": 0.5, "once": True,
                           "ops": {"eio": ["open_r"], "emfile": ["open_r"], "crash": ["open_r"]}[k]})
        return {"seed": seed, "petal": r.randrange(10), "npos": r.choice([2, 5, 12, 12, 25, 25, 50, 80]), "npin": r.choice([0, 0, 3, 8]),
                "noarm": r.choice([0, 0, 0.1, 0.3]), "long": r.choice([0, 0, 0.1, 0.5]), "short": r.choice([0, 0, 0.1]), "dead": r.choice([0, 0.05, 0.2]),
                "stray": r.choice([0, 0, 1, 3, 10, 40]), "cluster": r.random() < 0.4, "faint": r.choice([0, 0, 0.1]), "fudge": r.choice([FUDGE, FUDGE, 0.03, 0.3]),
                "steps": steps, "faults": faults, "_lists": ["steps", "faults"]}

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        data = w.use_data(self.dd)
        sky = Cells(plan, self.rows)
        r = random.Random("rows/%d" % plan["seed"])
        rows = sky.rows + sky.other
        r.shuffle(rows)
        s = io.StringIO()
        c = csv.DictWriter(s, self.fields, lineterminator="\n")
        c.writeheader()
        c.writerows(rows)
        w.put(os.path.join(data, "fp-metrology.csv"), s.getvalue().encode())
        w.install()
        n = 0
        api = w.new_process("api")
        try:
            w.faults = faults
            for ns, s in enumerate(plan["steps"]):
                if v:
                    break
                n += getattr(self, s["op"])(w, v, plan, sky, s, ns, api)
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=len(plan["steps"]), evals=n)

    def edges(self, sky, plan, reach, thresh):
        """{positioner: [spots it can have]}"""
        adj = {}
        for i, a in enumerate(reach):
            e = [j for j, q in enumerate(sky.spots) if q[3] == 0 and q[2] > thresh and math.hypot(q[0] - sky.x[i], q[1] - sky.y[i]) < a]
            if e:
                adj[i] = e
        return adj

    def api(self, w, v, plan, sky, s, ns, proc):
        """match_positioners of shuffled tables."""
        from astropy.table import Table
        r = random.Random(s["s"])
        po = r.sample(range(len(sky.rows)), len(sky.rows))         # row -> positioner
        so = r.sample(range(len(sky.spots)), len(sky.spots))
        thresh = s["thresh"] or 80000
        adj = self.edges(sky, plan, sky.reach(plan, True), thresh)
        if len(so) < 1 or not adj:
            return 0
        metr = Table()
        fid = [m for m in sky.other if m["DEVICE_TYPE"] != "POS"] if s["extra"] else []
        where = [("p", i) for i in po] + [("f", m) for m in fid]
        r.shuffle(where)
        metr["DEVICE_ID"] = [sky.id[q] if k == "p" else q["DEVICE_ID"] for k, q in where]
        metr["X_FP"] = [sky.x[q] if k == "p" else float(q["X_FP"]) for k, q in where]
        metr["Y_FP"] = [sky.y[q] if k == "p" else float(q["Y_FP"]) for k, q in where]
        metr["PINHOLE_ID"] = [0 if k == "p" else max(1, int(q["PINHOLE_ID"])) for k, q in where]
        row2pos = [q if k == "p" else None for k, q in where]
        fvc = Table()
        for c, t in (("X_FP", 0), ("Y_FP", 1), ("COUNTS", 2), ("PINHOLE_ID", 3), ("DEVICE_ID", 4)):
            fvc[c] = [sky.spots[j][t] for j in so]
        calib = self.calib(sky, s, r, Table())
        before = [t.copy() for t in (fvc, metr, calib)]
        what = "match_positioners of %d spots and %d positioners" % (len(fvc), len(sky.rows))
        kw = {"arm_fudge_offset": plan["fudge"]}
        if s["thresh"]:
            kw["countthresh"] = thresh
        if s["alt"]:
            kw["return_alternatives"] = True
            w.probe("alternatives")

        def go():
            from desimeter.match_positioners import match_positioners
            return match_positioners(fvc, metr, calib, **kw)
        f0 = sum(w.fired.values())
        st, val = w.call(proc, go)
        if st != "ok":
            if sum(w.fired.values()) == f0:
                v.add("failed", "%s: %s" % (what, read_exc(val)))
            else:
                w.probe("reported")
            return 0
        w.probe("api")
        for t, b, name in zip((fvc, metr, calib), before, ("fvc", "metr", "calib")):
            if t.colnames != b.colnames or any(list(map(str, t[c])) != list(map(str, b[c])) for c in t.colnames):
                v.add("argument-changed", "%s changes the table %s" % (what, name))
                return 1
        ind, score, total = val[:3]
        if s["static"]:
            w.probe("static")
        if fid:
            w.probe("fiducials")
        w.log("api", len(so), [int(q) for q in ind], [[int(q) for q in g] for g in val[3]] if s["alt"] else 0)
        match = best(adj)
        amb = ambiguous(adj, match)
        self.probes(w, plan, sky, adj, match, amb, thresh)
        w.state(len(sky.rows), len(sky.spots), len(match), len(amb), "api", s["alt"], s["thresh"], sorted(w.fired), 0)
        got = self.pairs(v, what, ind, so, row2pos, adj, len(fvc))
        if got is None:
            return 1
        if len(got) != len(match) or total != len(match):
            v.add("not-optimal", "%s: %d assigned, score %s, %d can be" % (what, len(got), total, len(match)))
            return 1
        if any((score[k] == 1) != (so[k] in got) for k in range(len(fvc))):
            v.add("score", "%s: scores %s" % (what, score))
            return 1
        if s["alt"]:
            alts = []
            for a in val[3]:
                g = self.pairs(v, what + ", alternative", a, so, row2pos, adj, len(fvc))
                if g is None:
                    return 1
                if len(g) != len(match):
                    v.add("alternative-worse", "%s: an alternative assigns %d of %d" % (what, len(g), len(match)))
                    return 1
                alts.append(g)
            amb = ambiguous(adj, got)
            for j, i in got.items():
                other = any(g.get(j) != i for g in alts)
                if other != (i in amb):
                    v.add("ambiguity", "%s: %s %s but its assignment is %s" % (what, sky.id[i], "has an alternative" if other else "has no alternative",
                                                                              "unique" if i not in amb else "ambiguous"))
                    return 1
        return 1

    def calib(self, sky, s, r, t, text=False):
        """The table of arm lengths: unknown arms are missing or blank."""
        rows = []
        for k, a in enumerate(sky.arms):
            if a is None and not s["blank"]:
                continue
            rows.append([sky.id[k], a[0] if a else None, a[1] if a else None])
        if s["extra"]:
            rows += [["M9%04d" % r.randrange(9999), 3., 3.] for _ in range(4)]
        r.shuffle(rows)
        ext = "_STATIC" if s["static"] and not text else ""
        if text:
            return [["POS_ID", "LENGTH_R1", "LENGTH_R2"]] + rows
        t["POS_ID"] = [q[0] for q in rows]
        for c in (1, 2):
            m = np.ma.masked_array([q[c] or 0. for q in rows], mask=[q[c] is None for q in rows])
            t["LENGTH_R%d%s" % (c, ext)] = m if m.mask.any() else m.data
        return t

    def pairs(self, v, what, ind, so, row2pos, adj, n):
        """{spot: positioner} of a result, after the checks of each pair."""
        got = {}
        if len(ind) != n:
            v.add("shape", "%s: %d entries" % (what, len(ind)))
            return None
        for k, i in enumerate(ind):
            if i < 0:
                continue
            p = row2pos[i]
            if p is None or so[k] not in adj.get(p, []):
                v.add("unreachable", "%s: spot %d is given to row %d which cannot have it" % (what, k, i))
                return None
            if p in got.values():
                v.add("twice", "%s: row %d has two spots" % (what, i))
                return None
            got[so[k]] = p
        return got

    def probes(self, w, plan, sky, adj, match, amb, thresh):
        if amb:
            w.probe("ambiguous")
        if set(match.values()) - amb:
            w.probe("unique")
        if len(match) < sum(q[3] == 0 and q[2] > thresh for q in sky.spots):
            w.probe("unassigned_spot")
        if len(match) < len(sky.rows):
            w.probe("unassigned_pos")
        if None in sky.arms:
            w.probe("noarm")
        if any(q[3] for q in sky.spots):
            w.probe("pinhole")
        if any(q[2] <= thresh for q in sky.spots):
            w.probe("faint")

    def script(self, w, v, plan, sky, s, ns, api):
        """desi_print_ambigous_groups: each possible pair is printed once."""
        r = random.Random(s["s"])
        reach = sky.reach(dict(plan, fudge=FUDGE), s["calib"])
        adj = self.edges(sky, plan, reach, 80000)
        if not adj or not any(q[4] in sky.id for q in sky.spots):
            return 0
        so = r.sample(range(len(sky.spots)), len(sky.spots))
        t = ["DEVICE_ID,X_FP,Y_FP,COUNTS,PINHOLE_ID"]
        for j in so:
            q = sky.spots[j]
            t.append("%s,%r,%r,%r,%d" % (q[4], q[0], q[1], q[2], q[3]))
        fvc = w.put(w.path("work", "spots %d.csv" % ns), ("\n".join(t) + "\n").encode())
        a = [fvc, "--petal", str(plan["petal"])]
        if s["calib"]:
            rows = self.calib(sky, s, r, None, text=True)
            a += ["--calib", w.put(w.path("work", "calib %d.csv" % ns), ("\n".join(",".join("" if c is None else str(c) for c in q) for q in rows) + "\n").encode())]
        else:
            w.probe("nocalib")
        what = "desi_print_ambigous_groups of %d spots and %d positioners%s" % (len(so), len(sky.rows), " with arm lengths" if s["calib"] else "")
        f0 = sum(w.fired.values())
        n0 = len(w.stdout.getvalue())
        st, val = w.run_script(w.new_process("groups%d" % ns), "desi_print_ambigous_groups", a)
        code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
        text = w.stdout.getvalue()[n0:]
        match = best(adj)
        amb = ambiguous(adj, match)
        w.state(len(sky.rows), len(sky.spots), len(match), len(amb), "script", s["calib"], sorted(w.fired), code)
        if code:
            if sum(w.fired.values()) > f0:
                w.probe("reported")
            else:
                v.add("failed", "%s: %s" % (what, read_exc(val) if st == "exc" else val))
            return 0
        w.probe("script")
        w.log("script", text[-400:])
        w.probe("petal")
        self.probes(w, plan, sky, adj, match, amb, 80000)
        lines = text.splitlines()
        h = [k for k, q in enumerate(lines) if q.startswith("DEVICE_ID X_FP")]
        if len(h) != 1:
            v.add("no-output", "%s: %s" % (what, text[-200:]))
            return 1
        groups = {}
        try:
            for q in lines[h[0] + 1:]:
                f = q.split()
                if len(f) != 6:
                    continue
                i = sky.id.index(f[0])
                x, y, ex, ey, m = map(float, f[1:])
                j = [k for k, z in enumerate(sky.spots) if abs(z[0] - x) < 1e-6 and abs(z[1] - y) < 1e-6]
                if len(j) != 1 or j[0] not in adj.get(i, []):
                    v.add("unreachable", "%s: %s at %.3f %.3f" % (what, f[0], x, y))
                    return 1
                arm = sky.arms[i] if s["calib"] else (3., 3.)
                if arm and (s["calib"] or sky.id[i] in [q[4] for q in sky.spots]):
                    d = math.hypot(x - sky.x[i], y - sky.y[i])
                    d1, d2 = math.hypot(ex - sky.x[i], ey - sky.y[i]), math.hypot(ex - x, ey - y)
                    if d >= arm[0] + arm[1] and abs(d1 + d2 - d) > 1e-3 or \
                       abs(arm[0] - arm[1]) + 1e-4 < d < arm[0] + arm[1] - 1e-4 and (abs(d1 - arm[0]) > 1e-3 or abs(d2 - arm[1]) > 1e-3):
                        v.add("elbow", "%s: %s elbow %.3f %.3f, at %.3f of the centre and %.3f of the spot" % (what, f[0], ex, ey, d1, d2))
                        return 1
                groups.setdefault(i, {})
                if j[0] in groups[i]:
                    v.add("printed-twice", "%s: %s at %.3f %.3f" % (what, f[0], x, y))
                    return 1
                groups[i][j[0]] = m
        except Exception as e:
            v.add("unreadable", "%s: %s in %s" % (what, read_exc(e), text[-300:]))
            return 1
        for i, g in groups.items():
            if set(g.values()) != {len(g)}:
                v.add("n-pos", "%s: %s has %d spots, N_POS %s" % (what, sky.id[i], len(g), g))
                return 1
        # every positioner which has a spot in all of the largest matchings is there, with its spot if it is unique
        for j, i in match.items():
            if i not in amb and set(groups.get(i, {})) != {j}:
                v.add("unique-wrong", "%s: %s can only have the spot %d, printed %s" % (what, sky.id[i], j, sorted(groups.get(i, {}))))
                return 1
        if len(groups) < len(match):
            v.add("not-optimal", "%s: %d positioners have a spot, %d can" % (what, len(groups), len(match)))
            return 1
        if len(best({i: list(g) for i, g in groups.items()})) < len(match):
            v.add("not-optimal", "%s: the pairs printed give %d, %d can be" % (what, len(best({i: list(g) for i, g in groups.items()})), len(match)))
            return 1
        for i in amb:
            always = len(best({k: e for k, e in adj.items() if k != i})) < len(match)
            if always and len(groups.get(i, {})) < 2:
                v.add("ambiguity", "%s: %s has several possible spots, printed %s" % (what, sky.id[i], sorted(groups.get(i, {}))))
                return 1
        return 1


PROP = P()
