"""P18  merge_posparams: every row of every fit, with the location of its positioner, or a failure."""
import csv
import io
import os
import random
import warnings

from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder
from dsim.world import PYDIR

_met = None


def metrology():
    """DEVICE_ID -> (LOCATION, DEVICE_LOC, PETAL_LOC, PETAL_ID), from the frozen metrology."""
    global _met
    if _met is None:
        _met = {}
        from dref import io as rio
        d = os.path.join(os.path.dirname(rio.__file__), "data")
        with open(os.path.join(d, "fp-metrology.csv")) as f:
            for r in csv.DictReader(f):
                if r["DEVICE_TYPE"] == "POS" and r["DEVICE_ID"].startswith("M"):
                    _met[r["DEVICE_ID"]] = tuple(int(float(r[k])) for k in ("LOCATION", "DEVICE_LOC", "PETAL_LOC", "PETAL_ID"))
    return _met


def rows_of(sp):
    """Rows of one file, as ordered dicts of strings."""
    r = random.Random("rows/%d" % sp["seed"])
    m = metrology().get(sp["posid"])
    out = []
    if sp["kind"] == "empty":
        return [], ["ANALYSIS_DATE", "POS_ID", "FLAGS"]
    for k in range(sp["n"]):
        d = {"ANALYSIS_DATE": "2020-11-%02d 03:0%d:11.123" % (r.randint(1, 28), k), "POS_ID": sp["posid"]}
        if sp["kind"] == "failed":
            d["FLAGS"] = str(r.choice([5, 8, 16]))
        else:
            if sp["loc"]:
                loc = m or (3001, 1, 3, 4)
                d["DEVICE_LOC"], d["PETAL_LOC"], d["PETAL_ID"] = str(loc[1]), str(loc[2]), str(loc[3])
                if sp["wrong"]:
                    d[sp["wrong"]] = str(int(d[sp["wrong"]]) + 1)
            d["NUM_POINTS"] = str(r.randint(10, 400))
            d["FLAGS"] = r.choice(["0", "0", "1", "4"])
            for c in ("LENGTH_R1_STATIC", "OFFSET_T_STATIC", "FIT_ERROR_STATIC", "SCALE_T_DYNAMIC"):
                d[c] = repr(round(r.uniform(-170, 170), 9))
            if sp["eps"]:
                d["EPSILON_T_%d_STATIC" % sp["eps"]] = repr(round(r.uniform(-3, 3), 6))
            if sp["move"]:
                d["MOVE_CMD"], d["MOVE_VAL1"], d["MOVE_VAL2"] = {"int": ("0", "0", "0"), "str": ("posintTP", "1.5deg", "up"),
                                                                 "mixed": ("QS", "0", "a")}[sp["move"]]
            d["DATA_END_DATE_SEC"] = repr(1.6e9 + r.randint(0, 10 ** 7) + 0.25)
        out.append(d)
    return out, None


def file_bytes(sp):
    rows, head = rows_of(sp)
    head = head or list(rows[0])
    s = io.StringIO()
    c = csv.writer(s, lineterminator="\n")
    c.writerow(head)
    for d in rows:
        c.writerow([d[k] for k in head])
    return s.getvalue().encode()


def same(a, b):
    if a == b:
        return True
    try:
        return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))
    except ValueError:
        return False


class P(Prop):
    id = "P18"
    rule = ("one case = one seeded set of paramfits files (good, failed, empty, several windows, wrong or missing locations) merged by "
            "merge_posparams under disk faults, then merged again; non-trivial = a merged table was compared")
    state_measure = "(kinds of files, options, move columns, faults fired, outcome)"
    real = ["bin/merge_posparams", "astropy table reader, writer and vstack", "io.load_metrology"]
    stubs = ["disk faults", "process deaths", "clock"]
    assumptions = []
    must_probe = ["merged", "failed_located", "unknown", "mismatch", "remerged", "reported", "enospc", "eio", "crash", "windows", "empty"]
    tiers = {"quick": {"runs": 900, "cap_s": 55, "run_timeout": 100, "min_s": 45},
             "thorough": {"runs": 30000, "cap_s": 1200, "run_timeout": 100, "min_s": 120}}

    def setup(self, base):
        install_finder()
        metrology()
        for n in ("astropy.table", "astropy.io.ascii"):
            __import__(n)

    def gen(self, seed, tier):
        r = random.Random("p18gen/%d" % seed)
        ids = sorted(metrology())
        files = []
        n = r.randint(1, 7)
        allwrong = r.random() < 0.15
        move = r.choice([None, None, "x"])
        for k in range(n):
            kind = r.choices(["fit", "failed", "empty"], [6, 3, 1])[0]
            posid = r.choice(ids) if r.random() < 0.9 else "M%05d" % (90000 + r.randrange(100))
            files.append({"seed": r.randrange(1 << 30), "kind": kind, "posid": posid, "n": r.choice([1, 1, 2, 4]) if kind == "fit" else 1,
                          "loc": r.random() < 0.85, "eps": r.choice([0, 0, 1, 2]), "move": r.choice(["int", "str", "mixed"]) if move else None,
                          "wrong": r.choice(["DEVICE_LOC", "PETAL_LOC", "PETAL_ID"]) if allwrong and r.random() < 0.4 else None})
        if r.random() < 0.1:
            for f in files:
                f["kind"], f["n"] = "failed", 1
        opts = r.choice([[], [], [], [], ["--no-check"], ["--no-metrology"], ["--no-check", "--no-metrology"]])
        faults = []
        if r.random() < 0.5:
            for _ in range(r.randint(1, 2)):
                k = r.choice(["enospc", "eio", "short", "emfile", "crash", "torn", "eacces"])
                faults.append({"kind": k, "at": r.randrange(r.choice([1, 4, 9])), "frac": round(r.random(), 3), "once": True,
                               "ops": {"enospc": ["write", "open_w"], "short": ["write"], "torn": ["write"], "emfile": ["open_r", "open_w"],
                                       "eio": r.choice([["open_r"], ["write"]]), "crash": ["write", "open_w", "open_r", "unlink"],
                                       "eacces": ["open_w", "open_r"]}[k]})
        return {"seed": seed, "files": files, "opts": opts, "faults": faults, "old": r.random() < 0.5, "same": r.random() < 0.1,
                "_lists": ["files", "faults"]}

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        w.install()
        n = 0
        try:
            w.use_data(os.path.join(PYDIR, "desimeter", "data"))
            names = []
            for k, sp in enumerate(plan["files"]):
                names.append(w.put(w.path("work", "in", "%02d %s_paramfits.csv" % (k, sp["posid"])), file_bytes(sp)))
            if plan["same"] and names:
                names.append(names[0])
            sps = plan["files"] + (plan["files"][:1] if plan["same"] and names else [])
            out = w.path("work", "merged.csv")
            if plan["old"]:
                w.put(out, b"POS_ID,FLAGS\nM00000,0\n")
            ex, why = self.expected(w, sps, plan["opts"])
            w.faults = faults
            for again in range(2):
                old = w.durable(out)
                f0 = sum(w.fired.values())
                st, val = w.run_script(w.new_process("merge%d" % again), "merge_posparams", ["-i"] + names + ["-o", out] + plan["opts"])
                code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
                hit = sum(w.fired.values()) > f0
                w.state(sorted({s["kind"] for s in sps}), plan["opts"], sorted({str(s["move"]) for s in sps}), sorted(w.fired), code)
                what = "merge_posparams %s of %s" % (" ".join(plan["opts"]), [(s["kind"], s["n"], s["loc"]) for s in sps])
                new = w.durable(out)
                if code == 0:
                    if ex is None:
                        v.add("bad-accepted", "%s ends well, although %s" % (what, why))
                        break
                    n += self.judge(w, v, new, ex, what)
                elif ex is None:
                    w.probe("mismatch" if why == "locations differ from the metrology" else "refused")
                    if not hit and new != old:
                        v.add("bad-written", "%s fails but changes the merged table" % what)
                elif not hit:
                    v.add("merge-failed", "%s: %s %s" % (what, st, read_exc(val) if st == "exc" else val))
                else:
                    w.probe("reported")
                for f, sp in zip(names, sps):
                    if w.durable(f) != file_bytes(sp):
                        v.add("input-modified", "%s changed" % f)
                if v or not hit:
                    break
                w.clear_faults()
            # the merged table can be merged again, with the same content
            if not v and ex is not None and code == 0:
                w.clear_faults()
                st, val = w.run_script(w.new_process("remerge"), "merge_posparams", ["-i", out, "-o", w.path("work", "m2.csv")] + plan["opts"])
                if st not in ("ok", "exit") or (st == "exit" and val):
                    v.add("remerge-failed", "merging %s again: %s" % (what, read_exc(val) if st == "exc" else val))
                else:
                    w.probe("remerged")
                    self.judge(w, v, w.durable(w.path("work", "m2.csv")), ex, what + " again")
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=len(plan["files"]), evals=n)

    @staticmethod
    def expected(w, sps, opts):
        """Rows of the merged table, or (None, why) when merge_posparams must refuse."""
        met = metrology()
        out = []
        for sp in sps:
            rows, _ = rows_of(sp)
            if not rows:
                w.probe("empty")
                continue
            if len(rows) > 1:
                w.probe("windows")
            for d in rows:
                d = dict(d)
                for k in ("MOVE_CMD", "MOVE_VAL1", "MOVE_VAL2"):
                    if d.get(k) == "0":
                        d[k] = "none"
                if "DEVICE_LOC" in d and "PETAL_LOC" in d:
                    d["LOCATION"] = str(1000 * int(d["PETAL_LOC"]) + int(d["DEVICE_LOC"]))
                out.append(d)
        if not out:
            return None, "there is no row"
        if "--no-metrology" not in opts:
            for d in out:
                m = met.get(d["POS_ID"])
                if m is None:
                    w.probe("unknown")
                elif d.get("DEVICE_LOC") is None:
                    w.probe("failed_located")
                for k, x in zip(("LOCATION", "DEVICE_LOC", "PETAL_LOC", "PETAL_ID"), m or (-1,) * 4):
                    if k not in d:
                        d[k] = str(x)
                    elif m and "--no-check" not in opts and d[k] != str(x):
                        return None, "locations differ from the metrology"
        return out, None

    @staticmethod
    def judge(w, v, b, ex, what):
        if b is None:
            v.add("no-output", "%s ends well and writes nothing" % what)
            return 0
        try:
            rd = csv.DictReader(io.StringIO(b.decode()))
            got = list(rd)
            cols = rd.fieldnames
        except Exception as e:
            v.add("unreadable", "%s: %s" % (what, read_exc(e)))
            return 0
        if len(got) != len(ex):
            v.add("rows", "%s: %d rows, expected %d" % (what, len(got), len(ex)))
            return 0
        want = {k for d in ex for k in d}
        if not want <= set(cols):
            v.add("columns", "%s: no column %s" % (what, sorted(want - set(cols))[:5]))
            return 0
        for k, (g, d) in enumerate(zip(got, ex)):
            for c in want:
                x, y = g[c], d.get(c)
                if y is None:
                    if x not in ("", "--", "nan", "-1", None):
                        v.add("invented", "%s: row %d %s is %r, the fit has no value" % (what, k, c, x))
                elif x is None or not same(x, y):
                    v.add("wrong-value", "%s: row %d (%s) %s is %r, expected %r" % (what, k, d["POS_ID"], c, x, y))
        w.probe("merged")
        return 1


PROP = P()
