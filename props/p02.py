"""P02  prepare_posparams_for_instr: only calibrations which pass every check are sent, as the operator decides."""
import builtins
import csv
import glob
import io
import os
import random
import re
import warnings

from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder
from dsim.world import PYDIR

STATS = []
STATIC = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y"]
BOUNDS = {"LENGTH_R1": (2.5, 3.5), "LENGTH_R2": (2.5, 3.5), "OFFSET_T": (-200., 200.), "OFFSET_P": (-30., 30.), "OFFSET_X": (-500., 500.), "OFFSET_Y": (-500., 500.)}
FLAGS = ["THETA_STUCK", "PHI_STUCK", "FAILED_FIT", "INVALID_TABLE", "INVALID_AFTER_FILTER"]
REQUIRED = ["FLAGS", "DEVICE_LOC", "NUM_POINTS", "DATA_END_DATE", "FIT_ERROR_STATIC", "NUM_POINTS_IN_FIT_STATIC"] + [k + "_STATIC" for k in STATIC]
OFF = "DEVICE_CLASSIFIED_NONFUNCTIONAL"
WHY = "ENABLE_DISABLE_RATIONALE"
TOL = {"check_num_outliers": ("tol", 2., [0, 5, 20, 1]), "check_fit_error": ("tol", 0.03, [0.01, 0.05, 0.1]),
       "check_static_fit_bounds": ("tighten_factor", 0.001, [0.1, 0.0, 0.02]), "check_xy_offsets": ("tol", 0.5, [0.3, 1.0, 5.]),
       "check_arm_lengths": ("tol", 0.5, [0.2, 0.3, 0.9])}
COMMIT = STATIC + ["SCALE_T", "SCALE_P", "PHYSICAL_RANGE_T", "PHYSICAL_RANGE_P", OFF]
ASKED = STATIC + [OFF]
_nom = {}


def nominal():
    if not _nom:
        from dref import io as rio
        with open(os.path.join(os.path.dirname(rio.__file__), "data", "positioner_locations_0530v18.csv")) as f:
            for q in csv.DictReader(f):
                if q["device_type"] == "POS":
                    _nom[int(q["device_location_id"])] = (float(q["FLAT_X"]), float(q["FLAT_Y"]))
    return _nom


def make_rows(plan):
    """Rows of the merged table of fits, dicts of strings."""
    r = random.Random("p02rows/%d" % plan["seed"])
    nom = nominal()
    out = []
    npt = r.sample(range(20, 900), 200)
    for k in range(plan["npos"]):
        loc = r.choice(sorted(nom))
        posid = "M%05d" % (100 * k + r.randrange(100))
        for _ in range(1 if r.random() > plan["multi"] else r.randint(2, 4)):
            d = {"POS_ID": posid, "DEVICE_LOC": loc, "PETAL_LOC": plan["petal"]}
            n = d["NUM_POINTS"] = npt.pop()
            d["NUM_POINTS_IN_FIT_STATIC"] = n - r.choice([0, 0, 1, 2])
            d["NUM_POINTS_IN_FIT_DYNAMIC"] = n
            d["FLAGS"] = 0
            d["FIT_ERROR_STATIC"] = round(r.choice([.004, .02, .028]) + r.uniform(-.001, .001), 6)
            d["FIT_ERROR_DYNAMIC"] = round(r.uniform(.001, .1), 6)
            v = {"LENGTH_R1": 3 + r.uniform(-.15, .15), "LENGTH_R2": 3 + r.choice([.25, .15]) * r.uniform(-.9, .9), "OFFSET_T": r.uniform(-150, 150),
                 "OFFSET_P": r.uniform(-20, 20), "OFFSET_X": nom[loc][0] + r.uniform(-.2, .2), "OFFSET_Y": nom[loc][1] + r.choice([.25, .4, -.35])}
            d["SCALE_T_DYNAMIC"], d["SCALE_P_DYNAMIC"] = round(r.uniform(.9, 1), 5), 1.0
            d["DATA_END_DATE"] = "2020-%02d-%02dT%02d:00:00+0000" % (r.randint(1, 12), r.randint(1, 28), r.randrange(24))
            d["TOTAL_MOVES"] = r.randrange(100000)
            if r.random() < plan["bad"]:
                for _ in range(r.choice([1, 1, 1, 2])):
                    what = r.choice(["outliers", "error", "flag", "arm", "angle", "xy", "missing", "nan"])
                    if what == "outliers":
                        d["NUM_POINTS_IN_FIT_STATIC"] = n - r.choice([3, 4, 10])
                    elif what == "error":
                        d["FIT_ERROR_STATIC"] = r.choice([.032, .06, .2, 5.])
                    elif what == "flag":
                        d["FLAGS"] = r.choice([1, 2, 4, 8, 16, r.randrange(1, 32)])
                    elif what == "arm":
                        v[r.choice(STATIC[:2])] = r.choice([2.5, 3.5, 2.500001, 3.4, 2.6, 3.35])
                    elif what == "angle":
                        p = r.choice(STATIC[2:4])
                        v[p] = BOUNDS[p][r.randrange(2)] * r.choice([1., .9993, .9965, .97])
                    elif what == "xy":
                        p = r.randrange(2)
                        v["OFFSET_" + "XY"[p]] = nom[loc][p] + r.choice([.4, .6, 2., -.55, -.8, 30.])
                    else:
                        d["-" if what == "missing" else "+"] = r.choice(REQUIRED[4:] if what == "nan" else REQUIRED)
            for p in STATIC:
                d[p + "_STATIC"] = round(v[p], 9)
            if "-" in d:
                d[d.pop("-")] = ""
            if "+" in d:
                k2 = d.pop("+")
                d[k2] = "nan" if not isinstance(d[k2], int) else ""
            if r.random() < plan["lost"]:
                d["DEVICE_LOC"] = -1
            out.append(d)
    r.shuffle(out)
    if plan["extra"]:
        for d in out:
            d["COVARIANCE.OFFSET_T.OFFSET_P_STATIC"] = r.choice([0.25, -3.5])
            d["EPSILON_T_1_STATIC"] = r.choice(["", 0.5])
    return out


def reasons(d, tol):
    """Checks failed by a row."""
    if any(d[k] in ("", "nan") for k in REQUIRED):
        return {"missing"}
    out = set()
    if d["NUM_POINTS"] - d["NUM_POINTS_IN_FIT_STATIC"] > tol["check_num_outliers"]:
        out.add("outliers")
    if d["FIT_ERROR_STATIC"] > tol["check_fit_error"]:
        out.add("error")
    out |= {f for k, f in enumerate(FLAGS) if d["FLAGS"] >> k & 1}
    for p in STATIC:
        lo, hi = BOUNDS[p]
        e = (hi - lo) * tol["check_static_fit_bounds"]
        if d[p + "_STATIC"] < lo + e or d[p + "_STATIC"] > hi - e:
            out.add("bounds")
    for p in (0, 1):
        if abs(d["OFFSET_%s_STATIC" % "XY"[p]] - nominal()[d["DEVICE_LOC"]][p]) > tol["check_xy_offsets"]:
            out.add("xy")
        if abs(d["LENGTH_R%d_STATIC" % (p + 1)] - 3) > tol["check_arm_lengths"]:
            out.add("arm")
    return out


class Gone(Exception):
    pass


class User:
    """The operator at the terminal."""

    def __init__(self, w, plan, s, v, what):
        self.w, self.plan, self.s, self.v, self.what = w, plan, s, v, what
        self.r = random.Random(s["s"])
        self.tol = {k: t[1] for k, t in TOL.items()}
        self.commit = {}
        self.choice = {}
        self.n = 0
        self.seen = 0
        self.expect = None         # the question which must come again
        self.retry = 0
        self.confirmed = not s["enabling"]
        self.left = False
        self.adjusts = 0

    def __call__(self, prompt=""):
        w, r, s = self.w, self.r, self.s
        text = w.stdout.getvalue()
        new, self.seen = text[self.seen:], len(text)
        q = re.findall(r"PROMPT: (.*)", new)
        q = q[-1] if q else new[-200:]
        self.n += 1
        if self.n > 600:
            raise EOFError("the operator gives up")
        if self.left:
            self.v.add("no-exit", "%s: asks %r after exit" % (self.what, q))
            raise EOFError("left")
        if s["stop"] is not None and self.n - 1 >= s["stop"][1]:
            self.left = True
            w.probe("user_" + s["stop"][0])
            if s["stop"][0] == "eof":
                raise EOFError("EOF when reading a line")
            if s["stop"][0] == "crash":
                w.kill_current("crash", "prompt")
            if "exit" in q:
                self.commit = None
                return "exit"
            self.left = False
        if self.expect and self.expect not in q:
            self.v.add("went-on", "%s: %r was not answered, but %r is asked" % (self.what, self.expect, q))
            raise EOFError("refused")
        a = self.answer(q, new)
        w.log("user", q[:40], a)
        return a

    def again(self, key, answers):
        """Sometimes an answer which is no answer: the question must be asked again."""
        self.retry += 1
        if self.retry <= 3 and self.r.random() < self.plan["noise"]:
            self.expect = key
            self.w.probe("noise")
            return self.r.choice(answers)
        self.expect = None
        self.retry = 0
        return None

    def answer(self, q, new):
        r, s = self.r, self.s
        yes, no = r.choice(["y", "yes", "Y", "true"]), r.choice(["n", "no", "No", "false"])
        if "confirm this mode" in q or "confirm this mode" in new and not self.confirmed:
            if s["confirm"] == "no":
                self.expect = None
                self.confirmed = None
                self.w.probe("not_confirmed")
                if self.n > 1 + s["confirm_n"]:
                    self.left = True
                    self.commit = None
                    return "exit"
                return r.choice(["n", "no", "help", "what?", ""])
            a = self.again(None, ["n", "", "maybe", "help"])
            if a is not None:
                self.expect = None
                return a
            self.confirmed = True
            return yes
        if self.confirmed is None:
            self.v.add("unconfirmed", "%s: goes on with %r though --set-enabling was not confirmed" % (self.what, q))
            raise EOFError("refused")
        m = re.search(r"Repeat (\w+) with modified args", q)
        if m:
            c = m.group(1)
            a = self.again("Repeat %s" % c, ["", "maybe", "help", "doc", "2"])
            if a is not None:
                return a
            self.check = c
            if c in TOL and self.adjusts < 4 and r.random() < self.plan["adjust"]:
                self.adjusts += 1
                return yes
            return no
        m = re.search(r"Enter new (\w+) value", q)
        if m:
            k = m.group(1)
            if k != TOL[self.check][0]:
                return ""
            a = self.again("Enter new %s" % k, ["abc", "nan", "inf", "y"])
            if a is not None:
                return a
            if r.random() < 0.1:
                return ""
            x = r.choice(TOL[self.check][2])
            self.tol[self.check] = float(x)
            self.w.probe("adjusted")
            return str(x)
        m = re.search(r"Shall we commit (\w+) to", q)
        if m:
            k = m.group(1)
            a = self.again("Shall we commit %s" % k, ["", "maybe", "help", "all"])
            if a is not None:
                return a
            self.commit[k] = r.random() < 0.7
            return yes if self.commit[k] else no
        if "WHICH OPTION" in q:
            if "has multiple rows" in new:
                self.multi = new
            a = self.again("WHICH OPTION", ["", "none", "77", "-1"])
            if a is not None:
                return a
            text = self.multi
            pos = re.findall(r"([^\s:]+) has multiple rows", text)[-1]
            opts = re.findall(re.escape(pos) + r" option (\d+):\s*\{[^}]*'NUM_POINTS': (?:np\.\w+\()?(\d+)", text[text.rindex("has multiple rows"):])
            if not opts:
                self.v.add("no-options", "%s: the rows of %s are not shown: %s" % (self.what, pos, text[-300:]))
                raise EOFError("refused")
            self.w.probe("multiple")
            if r.random() < 0.2:
                self.choice[pos] = None
                return r.choice(["skip", "s", "SKIP"])
            o, n = r.choice(opts)
            self.choice[pos] = int(n)
            return o
        return ""


class P(Prop):
    id = "P02"
    rule = ("one case = one seeded table of fits (bad, incomplete, repeated rows), one to three sessions of prepare_posparams_for_instr with a simulated operator who adjusts, "
            "hesitates, leaves or is cut off, under disk faults; non-trivial = a table for the instrument was compared, or a session without one")
    state_measure = "(modes, rows, rows kept, adjustments, questions asked, reasons, way the session ends, faults)"
    real = ["bin/prepare_posparams_for_instr", "posparams.movemask", "posparams.fitter limits", "io.load_nominal_positioner_locations", "desimeter.log", "astropy tables"]
    stubs = ["operator at the terminal", "clock", "disk faults", "process deaths"]
    assumptions = ["POS_ID is in every row", "values are not within rounding of a tolerance"]
    must_probe = ["output", "enabling", "excluded", "multiple", "adjusted", "noise", "user_exit", "user_eof", "user_crash", "not_confirmed", "complete", "missing", "reported",
                  "enospc", "eio", "crash", "same_second"]
    tiers = {"quick": {"runs": 900, "cap_s": 55, "run_timeout": 100, "min_s": 40},
             "thorough": {"runs": 30000, "cap_s": 1200, "run_timeout": 100, "min_s": 120}}

    def setup(self, base):
        install_finder()
        nominal()
        for n in ("astropy.table", "astropy.io.ascii", "scipy.optimize"):
            __import__(n)

    def gen(self, seed, tier):
        r = random.Random("p02gen/%d" % seed)
        steps = []
        for _ in range(r.choice([1, 1, 2, 3])):
            stop = None
            if r.random() < 0.2:
                stop = [r.choice(["exit", "eof", "crash"]), r.randrange(16)]
            steps.append({"s": r.randrange(1 << 30), "enabling": r.random() < 0.4, "confirm": r.choice(["yes", "yes", "yes", "no"]), "confirm_n": r.randint(1, 4), "stop": stop,
                          "path": r.choice(["rel", "abs", "dir"]), "wait": r.choice([0, 0, 5, 3600]), "scale": r.random() < 0.1})
        faults = []
        if r.random() < 0.4:
            for _ in range(r.randint(1, 2)):
                k = r.choice(["enospc", "eio", "short", "emfile", "crash", "torn", "eacces"])
                faults.append({"kind": k, "at": r.randrange(r.choice([2, 8, 40])), "frac": round(r.random(), 3), "once": True,
                               "ops": {"enospc": ["write", "open_w"], "short": ["write"], "torn": ["write"], "emfile": ["open_r", "open_w"],
                                       "eio": r.choice([["open_r"], ["write"]]), "crash": ["write", "open_w", "open_r"], "eacces": ["open_w", "open_r"]}[k]})
        return {"seed": seed, "petal": r.randrange(10), "npos": r.choice([1, 3, 8, 8, 20]), "multi": r.choice([0, 0.1, 0.3]), "bad": r.choice([0, 0.3, 0.5, 0.9]),
                "lost": r.choice([0, 0, 0, 0.05]), "extra": r.random() < 0.5, "noise": r.choice([0, 0.1, 0.4]), "adjust": r.choice([0, 0.2, 0.5]),
                "steps": steps, "faults": faults, "_lists": ["steps", "faults"]}

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        rows = make_rows(plan)
        cols = list(rows[0])
        s = io.StringIO()
        c = csv.DictWriter(s, cols, lineterminator="\n")
        c.writeheader()
        c.writerows(rows)
        w.install()
        n = 0
        try:
            w.use_data(os.path.join(PYDIR, "desimeter", "data"))
            w.faults = faults
            done = {}
            for ns, st in enumerate(plan["steps"]):
                if v:
                    break
                n += self.session(w, v, plan, rows, cols, s.getvalue().encode(), st, ns, done)
        finally:
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=len(plan["steps"]), evals=n)

    def session(self, w, v, plan, rows, cols, data, s, ns, done):
        d = {"rel": w.cwd, "abs": w.path("work", "fits of today"), "dir": os.path.join(w.cwd, "out")}[s["path"]]
        full = os.path.join(d, "all_paramfits.csv")
        if w.durable(full) is None:
            w.put(full, data)
        infile = os.path.relpath(full, w.cwd) if s["path"] != "abs" else full
        a = ["-i", infile] + (["-e"] if s["enabling"] else []) + (["--allow-scale"] if s["scale"] else [])
        what = "prepare_posparams_for_instr%s of %d rows" % (" -e" if s["enabling"] else "", len(rows))
        user = User(w, plan, s, v, what)
        user.seen = len(w.stdout.getvalue())
        w.tick(s["wait"])
        if ns and not s["wait"]:
            w.probe("same_second")
        outs = lambda: {p: w.durable(p) for p in sorted(glob.glob(os.path.join(glob.escape(d), "*_posparams_for_instr.csv")))}
        before = outs()
        f0 = sum(w.fired.values())
        saved, builtins.input = builtins.input, user
        try:
            st, val = w.run_script(w.new_process("prepare%d" % ns), "prepare_posparams_for_instr", a)
        finally:
            builtins.input = saved
        code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
        hit = sum(w.fired.values()) > f0
        after = outs()
        new = sorted(set(after) - set(before))
        if v:
            return 1
        lost = any(q["DEVICE_LOC"] in (-1, "") or q["FLAGS"] == "" for q in rows)
        tol = user.tol
        why = [None if q["DEVICE_LOC"] in (-1, "") else reasons(q, tol) for q in rows]
        w.state(s["enabling"], len(rows), sum(not x for x in why), tuple(sorted(k for k in tol if tol[k] != TOL[k][1])), user.n, s["stop"] and s["stop"][0],
                sorted(w.fired), code)
        if w.durable(full) != data:
            v.add("input-modified", "%s changed its input" % what)
        for p in before:
            if after.get(p) != before[p]:
                v.add("overwritten", "%s changed %s of an earlier session" % (what, os.path.basename(p)))
        if user.left or user.confirmed is None:
            if new:
                v.add("left-but-written", "%s writes %s after the operator left" % (what, os.path.basename(new[0])))
            if user.commit is None and code and not hit:
                v.add("exit-failed", "%s: %s when asked to exit" % (what, read_exc(val) if st == "exc" else val))
            return 1
        if code:
            if hit:
                w.probe("reported")
            elif done and not s["wait"]:
                w.probe("name_taken")
            elif lost:
                w.probe("lost")
            elif not s["enabling"] and not any(x is not None and not x for x in why):
                w.probe("nothing_left")
            elif all(c is None for c in user.choice.values()) and {q["POS_ID"] for q, x in zip(rows, why) if s["enabling"] or not x} <= set(user.choice):
                w.probe("nothing_left")
            else:
                v.add("failed", "%s: %s" % (what, read_exc(val) if st == "exc" else val))
            return 0
        if s["enabling"]:
            w.probe("enabling")
        if len(new) != 1:
            v.add("no-output", "%s ends well and writes %d tables" % (what, len(new)))
            return 1
        done[new[0]] = 1
        if all(x is not None and "missing" not in x for x in why):
            w.probe("complete")
        else:
            w.probe("missing")
        self.judge(w, v, what, after[new[0]], rows, cols, why, user, s)
        return 1

    def judge(self, w, v, what, b, rows, cols, why, user, s):
        try:
            got = list(csv.DictReader(io.StringIO(b.decode())))
        except Exception as e:
            v.add("unreadable", "%s: %s" % (what, read_exc(e)))
            return
        key = {(q["POS_ID"], str(q["NUM_POINTS"]), str(q["TOTAL_MOVES"])): k for k, q in enumerate(rows)}
        kept = {}
        for g in got:
            k = key.get((g.get("POS_ID"), g.get("NUM_POINTS", ""), g.get("TOTAL_MOVES")))
            if k is None or k in kept:
                v.add("invented", "%s: row %s" % (what, {c: g.get(c) for c in ("POS_ID", "NUM_POINTS", "FLAGS")}))
                return
            kept[k] = g
        # candidate rows after the checks, then the operator's choice among those of one positioner
        cand = [k for k in range(len(rows)) if s["enabling"] or (why[k] is not None and not why[k])]
        want = set()
        for pos in {q["POS_ID"] for q in rows}:
            ks = [k for k in cand if rows[k]["POS_ID"] == pos]
            if len(ks) > 1:
                if pos not in user.choice:
                    v.add("not-asked", "%s: %s has %d rows, no choice was offered" % (what, pos, len(ks)))
                    return
                ks = [k for k in ks if rows[k]["NUM_POINTS"] == user.choice[pos]]
                if user.choice[pos] is not None and len(ks) != 1:
                    v.add("bad-offered", "%s: a row of %s which failed the checks was offered" % (what, pos))
                    return
            elif pos in user.choice:
                v.add("bad-offered", "%s: rows of %s which failed the checks were offered" % (what, pos))
                return
            want.update(ks)
        if len(cand) < len(rows):
            w.probe("excluded")
        for k in sorted(want - set(kept)):
            v.add("row-lost", "%s: %s (%d points) passes all checks and was not refused, but is not in the output; tolerances %s" % (
                what, rows[k]["POS_ID"], rows[k]["NUM_POINTS"], user.tol))
            return
        for k in sorted(set(kept) - want):
            v.add("row-sent", "%s: %s (%d points) is in the output, but %s; tolerances %s" % (
                what, rows[k]["POS_ID"], rows[k]["NUM_POINTS"], sorted(why[k]) if why[k] else "another row was chosen", user.tol))
            return
        w.probe("output")
        for k, g in kept.items():
            self.row(v, what, rows[k], cols, why[k], g, user, s)
            if v:
                return

    @staticmethod
    def row(v, what, q, cols, why, g, user, s):
        what = "%s: %s (%d points)" % (what, q["POS_ID"], q["NUM_POINTS"] or -1)

        def same(x, y):
            if str(y) in ("", "nan"):
                return x in ("", "nan", "--")
            try:
                return abs(float(x) - float(y)) <= 1e-9 * max(1, abs(float(y)))
            except (TypeError, ValueError):
                return x == str(y)
        ex = {c: q[c] for c in cols}
        ex.update({p: q[p + "_STATIC"] for p in STATIC})
        ex["SCALE_T"], ex["SCALE_P"] = q["SCALE_T_DYNAMIC"], q["SCALE_P_DYNAMIC"]
        for c, x in ex.items():
            if c not in g or not same(g[c], x):
                v.add("wrong-value", "%s: %s is %r, the fit has %r" % (what, c, g.get(c), x))
                return
        off = s["enabling"] and (why is None or bool(why))
        if why is not None and g.get(OFF) != str(off):
            v.add("disabled", "%s: %s is %s, failed checks: %s" % (what, OFF, g.get(OFF), sorted(why)))
            return
        off = g.get(OFF) == "True"
        for p in COMMIT:
            if p in ASKED and p not in user.commit:
                v.add("not-asked", "%s: no question about %s" % (what, p))
                return
            e = p in ASKED and user.commit[p] and not (off and p != OFF)
            if g.get("COMMIT_" + p) != str(e):
                v.add("commit", "%s: COMMIT_%s is %s, the operator said %s, disabled %s" % (what, p, g.get("COMMIT_" + p), user.commit.get(p), off))
                return
        if s["enabling"] and why is not None:
            t = g.get(WHY) or ""
            if not t.startswith("%s=%s" % (OFF, off)):
                v.add("rationale", "%s: disabled %s, rationale %r" % (what, off, t))
                return
            items = [x.strip() for x in t.split(": ", 1)[-1].split(";")]
            for f in FLAGS:
                if "missing" not in why and ("flag " + f in items) != (f in why):
                    v.add("rationale", "%s: failed %s, rationale %r" % (what, sorted(why), t))
                    return
            for f, x in (("error", "FIT_ERROR_STATIC > tol"), ("outliers", "number of outliers > tol"), ("missing", "paramfits file missing")):
                if ("missing" not in why or f == "missing") and any(i.startswith(x) for i in items) != (f in why):
                    v.add("rationale", "%s: failed %s, rationale %r" % (what, sorted(why), t))
                    return


PROP = P()
