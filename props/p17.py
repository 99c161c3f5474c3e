"""P17  exports of the telemetry database: the rows selected, complete, each with its own calibration, or a failure."""
import csv
import datetime as dt
import io
import itertools
import os
import random
import warnings

import numpy as np

from dsim import pgfake
from dsim.subproc import ProgramResult
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder
from dsim.world import PYDIR

UTC = dt.timezone.utc
LOC = {2: 7, 3: 3, 4: 0, 5: 1, 6: 2, 7: 8, 8: 4, 9: 9, 10: 5, 11: 6, 1: 0}

MOVES = ["petal_id", "device_loc", "pos_id", "pos_move_index", "time_recorded", "bus_id", "pos_t", "pos_p", "last_meas_obs_x", "last_meas_obs_y",
         "last_meas_peak", "last_meas_fwhm", "total_move_sequences", "total_cruise_moves_t", "total_cruise_moves_p", "total_creep_moves_t",
         "total_creep_moves_p", "ctrl_enabled", "move_cmd", "move_val1", "move_val2", "log_note", "exposure_id", "exposure_iter", "flags",
         "ptl_x", "ptl_y", "obs_x", "obs_y"]
CALIB = ["petal_id", "device_loc", "pos_id", "pos_calib_index", "time_recorded", "bus_id", "length_r1", "length_r2", "offset_x", "offset_y",
         "offset_t", "offset_p", "physical_range_t", "physical_range_p", "gear_calib_t", "gear_calib_p", "total_limit_seeks_t",
         "total_limit_seeks_p", "last_primary_hardstop_dir_t", "last_primary_hardstop_dir_p", "keepout_expansion_phi_radial",
         "keepout_expansion_phi_angular", "keepout_expansion_theta_radial", "keepout_expansion_theta_angular", "classified_as_retracted",
         "device_classified_nonfunctional", "fiber_intact", "calib_note"]
ENABLED = {"moves": ["time_recorded", "pos_id", "petal_id", "device_loc", "bus_id", "ctrl_enabled", "move_cmd", "move_val1", "move_val2", "log_note",
                     "exposure_id", "exposure_iter", "flags"],
           "calib": ["time_recorded", "device_classified_nonfunctional", "fiber_intact", "calib_note"]}
NOTES = ["blind move", "arc, calibration; use_desimeter=True", "tp_update_posTP, after fvc", "handle_fvc, (1,2)", None, "say \"hi\", bye", "rehome"]


def mt(p):
    return "posmovedb.positioner_moves_p%d" % p


def ct(p):
    return "posmovedb.positioner_calibration_p%d" % p


class Site:
    """Rows of a simulated instrument: what the database holds at first, and what other clients commit later."""

    def __init__(self, d):
        r = random.Random("site/%d" % d["seed"])
        self.t0 = dt.datetime(2020, 11, 3, 2, 0, 0, tzinfo=UTC)
        self.rows = {}
        self.pos = {}
        self.extra = []
        ids = r.sample(range(1000, 8000), 60)
        locs = r.sample(range(1, 500), 60)
        for p in d["petals"]:
            self.rows[mt(p)], self.rows[ct(p)] = [], []
            self.pos[p] = []
            for k in range(r.randint(1, d["npos"])):
                self.pos[p].append({"pos_id": "M%05d" % ids.pop(), "device_loc": locs.pop(), "bus_id": 10 + r.randrange(10),
                                    "idx": r.randrange(1, 900), "cidx": r.randrange(1, 50), "en": True, "T": [0.0, 100.0]})
        self.r, self.d = r, d
        t = self.t0
        for p in d["petals"]:
            for q in self.pos[p]:
                if d["late_calib"] and r.random() < 0.3:
                    continue
                self.calib(self.rows, p, q, t - dt.timedelta(days=r.uniform(1, 300)))
        self.exp = []
        expid = 5000 + r.randrange(90)
        for k in range(d["nexp"]):
            for it in range(r.randint(1, 3)):
                t = t + dt.timedelta(seconds=r.randint(40, 130), microseconds=r.choice([0, r.randrange(10 ** 6)]))
                self.exposure(self.rows, t, expid, it)
                self.exp.append((expid, it, t))
                if r.random() < 0.3:
                    t = t + dt.timedelta(seconds=r.randint(3, 9))
                    self.tp_updates(self.rows, t, r.choice([None, expid]), it)
                if r.random() < 0.25:
                    p = r.choice(d["petals"])
                    self.calib(self.rows, p, r.choice(self.pos[p]), t + dt.timedelta(seconds=r.uniform(1, 30)))
            if r.random() < 0.1:
                p = r.choice(d["petals"])
                self.calib(self.rows, p, r.choice(self.pos[p]), self.t0 - dt.timedelta(days=r.uniform(0, 300)))
            expid += r.randint(1, 3)
            t = t + dt.timedelta(seconds=r.choice([300, 3600, 86400]) * r.uniform(0.5, 2))
        for q in range(d["ncommits"]):
            b = {n: [] for n in self.rows}
            t = t + dt.timedelta(seconds=r.randint(40, 130))
            if r.random() < 0.8:
                e = self.exp[-1] if r.random() < 0.5 else (expid, 0, t)
                self.exposure(b, t, e[0], e[1] + (e[0] != expid))
            if r.random() < 0.6:
                p = r.choice(d["petals"])
                self.calib(b, p, r.choice(self.pos[p]), t + dt.timedelta(seconds=r.uniform(1, 30)) if r.random() < 0.6 else
                           self.t0 + dt.timedelta(days=r.uniform(0, 2)))
            if r.random() < 0.5:
                t = t + dt.timedelta(seconds=r.randint(3, 9))
                self.tp_updates(b, t, None, 0)
            self.extra.append(b)
        for n in self.rows:
            r.shuffle(self.rows[n])

    def calib(self, out, p, q, t):
        r = self.r
        q["cidx"] += 1
        c = {"petal_id": p, "device_loc": q["device_loc"], "pos_id": q["pos_id"], "bus_id": q["bus_id"], "pos_calib_index": q["cidx"],
             "time_recorded": t.replace(microsecond=r.randrange(1, 10 ** 6)), "length_r1": round(r.uniform(2.9, 3.1), 6),
             "length_r2": round(r.uniform(2.9, 3.1), 6), "offset_x": round(r.uniform(0, 400), 4), "offset_y": round(r.uniform(-100, 100), 4),
             "offset_t": round(r.uniform(-170, 170), 4), "offset_p": round(r.uniform(-15, 15), 4),
             "calib_note": r.choice([None, "from fit", "imported"])}
        for k in CALIB:
            if k in ("physical_range_t", "physical_range_p", "gear_calib_t", "gear_calib_p") or k.startswith("keepout"):
                c[k] = round(r.uniform(0.5, 400), 4)
            elif k.startswith("total") or k.startswith("last_primary"):
                c[k] = r.randint(-1, 90)
            elif k in ("classified_as_retracted", "device_classified_nonfunctional", "fiber_intact"):
                c[k] = r.random() < 0.3
        out[ct(p)].append(c)

    def move(self, p, q, t, **kw):
        r = self.r
        q["idx"] += 1
        if r.random() < 0.12:
            q["en"] = not q["en"]
        d = {k: r.randint(0, 500) if k.startswith("total") else None for k in MOVES}
        d.update(petal_id=p, device_loc=q["device_loc"], pos_id=q["pos_id"], pos_move_index=q["idx"], bus_id=q["bus_id"], ctrl_enabled=q["en"],
                 time_recorded=t, pos_t=round(q["T"][0], 5), pos_p=round(q["T"][1], 5), last_meas_obs_x=round(r.uniform(-400, 400), 5),
                 last_meas_obs_y=round(r.uniform(-400, 400), 5), last_meas_peak=round(r.uniform(0, 1e4), 3), last_meas_fwhm=round(r.uniform(1, 3), 4),
                 flags=r.choice([4, 4, 4, 65540]), log_note=r.choice(NOTES))
        d.update(kw)
        return d

    def exposure(self, out, t, expid, it):
        r = self.r
        for p in self.d["petals"]:
            for q in self.pos[p]:
                if r.random() < 0.1:
                    continue
                q["T"] = [r.uniform(-170, 170), r.uniform(10, 170)]
                cmd = r.choice(["obsdXdY", "posintTP", "", None]) if self.d["movers"] else r.choice(["", None])
                x = {}
                if cmd:
                    x = {"move_val1": round(r.uniform(-90, 90), 4), "move_val2": round(r.uniform(0, 90), 4)}
                if r.random() < 0.85:
                    x.update(obs_x=round(r.uniform(-400, 400), 5), obs_y=round(r.uniform(-400, 400), 5),
                             ptl_x=round(r.uniform(0, 400), 5), ptl_y=round(r.uniform(0, 400), 5))
                out[mt(p)].append(self.move(p, q, t, exposure_id=expid, exposure_iter=it, move_cmd=cmd, **x))

    def tp_updates(self, out, t, expid, it):
        r = self.r
        for p in self.d["petals"]:
            for q in self.pos[p]:
                if r.random() < 0.5:
                    out[mt(p)].append(self.move(p, q, t, exposure_id=expid, exposure_iter=it if expid else None,
                                                log_note=r.choice(["tp_update_posTP", "tp_update, expected", "tp_updates"])))


def csv_rows(b):
    rd = csv.DictReader(io.StringIO(b.decode()))
    rows = list(rd)
    return rows, rd.fieldnames


def eq(x, y):
    """Does the text x of a csv represent the value y of the database?"""
    if y is None:
        return x in ("", "None", "--", "nan")
    if x is None:
        return False
    if isinstance(y, bool):
        return x in (("True", "1", "1.0") if y else ("False", "0", "0.0"))
    if isinstance(y, (int, float, np.number)):
        try:
            return float(x) == float(y)
        except ValueError:
            return False
    if isinstance(y, dt.datetime):
        try:
            return abs((dt.datetime.fromisoformat(x) - y).total_seconds()) < 1e-5
        except (ValueError, TypeError):
            return False
    return x == str(y)


def rowkey(d):
    """Identity of a row of an export."""
    return (d.get("POS_ID"), d.get("DATE"))


class P(Prop):
    id = "P17"
    rule = ("one case = one simulated telemetry database exported by one of the get_* commands (all options) while other clients commit rows, "
            "the database or the disk fails, then exported again; non-trivial = an export was compared with the database")
    state_measure = "(command, options, petals, commits, faults fired, outcome)"
    real = ["bin/get_posmoves", "bin/get_posparams", "bin/get_poscoords", "bin/get_posmoves_with_fvc_data",
            "bin/get_posmoves_with_fvc_data_using_dates", "bin/load_petal_alignments_from_db", "dbutil", "util.parse_fibers", "ptl2fp", "pos2ptl"]
    stubs = ["database server and psycopg2 (in-memory SQL engine)", "other clients", "desi_fvc_proc", "disk faults", "clock"]
    assumptions = ["one row of a positioner per time and per exposure iteration", "no calibration at the very time of a move",
                   "each statement of a client sees the rows committed before it"]
    must_probe = ["posmoves", "posparams", "poscoords", "fvc", "dates", "alignments", "with_calib", "tp_rows", "latest", "merged", "enabled", "movers",
                  "reported", "db_lost", "commit_seen", "refused", "several_petals", "completed_later"]
    tiers = {"quick": {"runs": 3500, "cap_s": 75, "run_timeout": 100, "min_s": 45},
             "thorough": {"runs": 40000, "cap_s": 1500, "run_timeout": 100, "min_s": 120}}

    def setup(self, base):
        install_finder()
        for n in ("astropy.table", "astropy.io.ascii", "matplotlib.pyplot", "yaml", "fitsio", "sqlite3"):
            __import__(n)

    # ---- plan ----------------------------------------------------------
    def gen(self, seed, tier):
        r = random.Random("p17gen/%d" % seed)
        cmd = r.choice(["posmoves", "posmoves", "posmoves", "posmoves", "posparams", "poscoords", "fvc", "dates", "alignments"])
        petals = sorted(r.sample(sorted(LOC), r.choice([1, 1, 2, 3])))
        d = {"seed": r.randrange(1 << 30), "petals": petals, "npos": r.choice([1, 2, 4]), "nexp": r.randint(1, 5),
             "ncommits": r.choice([0, 0, 0, 1, 2]), "movers": r.random() < 0.85, "late_calib": r.random() < 0.06}
        plan = {"seed": seed, "cmd": cmd, "db": d, "aseed": r.randrange(1 << 30), "commit_at": sorted(r.randrange(12) for _ in range(d["ncommits"])),
                "dbfaults": [], "faults": [], "_lists": ["dbfaults", "faults"]}
        if r.random() < 0.3:
            plan["dbfaults"].append({"kind": r.choice(["refused", "lost", "lost", "error"]), "at": r.choice([0, 1, r.randrange(25)])})
        if r.random() < 0.25:
            k = r.choice(["enospc", "eio", "short", "emfile", "crash", "torn", "eacces"])
            plan["faults"].append({"kind": k, "at": r.randrange(r.choice([1, 4, 9])), "frac": round(r.random(), 3), "once": True,
                                   "ops": {"enospc": ["write", "open_w"], "short": ["write"], "torn": ["write"], "emfile": ["open_r", "open_w"],
                                           "eio": r.choice([["open_r"], ["write"]]), "crash": ["write", "open_w", "open_r", "mkdir"],
                                           "eacces": ["open_w", "open_r", "mkdir"]}[k]})
        return plan

    def run(self, plan, root, keep_log=0):
        warnings.simplefilter("ignore")
        v = Viol()
        w = new_world(root, plan, keep_log)
        faults = [dict(f) for f in w.faults]
        w.faults = []
        w.install()
        db = pgfake.Database(w, plan["db"]["seed"], bools=("ctrl_enabled", "classified_as_retracted", "device_classified_nonfunctional", "fiber_intact"))
        db.install()
        n = 0
        try:
            w.use_data(os.path.join(PYDIR, "desimeter", "data"))
            site = Site(plan["db"])
            for name in site.rows:
                db.create(name, MOVES if "_moves_" in name else CALIB)
            for name in sorted(site.rows):
                db.insert(name, site.rows[name], 0)
            for name in ("posmovedb.positioner_moves_p0042", "posmovedb.positioner_moves_p3_old", "posmovedb.other"):
                db.create(name, ["x"])
            if plan["cmd"] == "alignments":
                self.alignments(db, plan)
            c = Command(w, v, db, site, plan)
            db.commits = list(zip(plan["commit_at"], site.extra))
            db.faults = [dict(f) for f in plan["dbfaults"]]
            w.faults = faults
            for again in range(2):
                f0 = sum(w.fired.values()) - w.fired.get("db_commit", 0)
                v0 = db.version
                c.prepare(again)
                db.nstat = 0 if not again else 10 ** 6
                st, val = w.run_script(w.new_process("get%d" % again), c.script, c.argv)
                code = {"ok": 0, "exit": 0 if val in (None, 0) else 1}.get(st, 1)
                hit = sum(w.fired.values()) - w.fired.get("db_commit", 0) > f0
                w.state(plan["cmd"], c.what, len(plan["db"]["petals"]), db.version - v0, sorted(w.fired), code)
                if db.version > v0:
                    w.probe("commit_seen")
                if code == 0:
                    n += c.judge(v0, db.version)
                    if again and n:
                        w.probe("completed_later")
                elif hit:
                    w.probe("reported")
                    if "db_lost" in w.fired:
                        w.probe("db_lost")
                elif c.may_fail(v0, db.version):
                    w.probe("refused")
                else:
                    v.add("export-failed", "%s: %s %s" % (c.what, st, read_exc(val) if st == "exc" else val))
                if v or not hit:
                    break
                w.clear_faults()
                db.faults = []
        finally:
            db.uninstall()
            w.uninstall()
        w.log("end", n, len(v.items))
        return outcome(w, v.items, nontrivial=n > 0, steps=db.nops, evals=n)

    @staticmethod
    def alignments(db, plan):
        """Constants database: several snapshots, the last one counts."""
        r = random.Random("align/%d" % plan["aseed"])
        db.create("snapshots", ["version"], rel=False)
        db.create("constants.snapshots", ["version"], rel=False)
        db.create("constants.groups", ["name", "version"], rel=False)
        db.create("constants.elements", ["name", "version", "constants"], rel=False)
        db.create("constants.group_to_snapshot", ["snapshot_name", "snapshot_version", "group_name", "group_version"], rel=False)
        db.create("constants.element_to_group", ["group_name", "group_version", "element_name", "element_version"], rel=False)
        nv = r.randint(1, 12)
        vers = list(range(1, nv + 1))
        r.shuffle(vers)
        ev = 0
        db.align = {}
        for s in vers:
            db.insert("snapshots", [{"version": s}], 0)
            db.insert("constants.snapshots", [{"version": s}], 0)
            db.insert("constants.groups", [{"name": "focal_plane_metrology", "version": 100 + s}], 0)
            db.insert("constants.group_to_snapshot", [{"snapshot_name": "DESI", "snapshot_version": s, "group_name": "focal_plane_metrology",
                                                       "group_version": 100 + s}], 0)
            for loc in range(10):
                ev += 1
                c = {k: round(r.uniform(-1, 1), 6) for k in ("petal_offset_x", "petal_offset_y", "petal_offset_z", "petal_rot_1", "petal_rot_2",
                                                            "petal_rot_3")}
                db.insert("constants.elements", [{"name": str(loc), "version": ev, "constants": c}], 0)
                db.insert("constants.element_to_group", [{"group_name": "focal_plane_metrology", "group_version": 100 + s, "element_name": str(loc),
                                                          "element_version": ev}], 0)
                if s == nv:
                    db.align[loc] = {"Tx": c["petal_offset_x"], "Ty": c["petal_offset_y"], "Tz": c["petal_offset_z"], "alpha": c["petal_rot_1"],
                                           "beta": c["petal_rot_2"], "gamma": c["petal_rot_3"]}


def sample_exp(r, exps):
    e = sorted({x[0] for x in exps})
    return r.sample(e, min(len(e), r.choice([1, 1, 2])))


class Command:
    """One export command: its arguments, and what its output must be."""

    def __init__(self, w, v, db, site, plan):
        self.w, self.v, self.db, self.site, self.plan = w, v, db, site, plan
        r = self.r = random.Random("args/%d" % plan["aseed"])
        self.cmd = plan["cmd"]
        have = plan["db"]["petals"]
        self.petals = list(have)
        self.pargs = []
        if r.random() < 0.6:
            self.petals = sorted(r.sample(have, r.randint(1, len(have))))
            self.pargs = ["--petal-ids", ",".join(str(p) for p in self.petals)]
            if len(self.petals) > 1 and self.petals == list(range(self.petals[0], self.petals[-1] + 1)) and r.random() < 0.7:
                self.pargs = ["--petal-ids", "%d%s%d" % (self.petals[0], r.choice([":", "..", "-"]), self.petals[-1] + 1)]
        if len(self.petals) > 1:
            w.probe("several_petals")
        self.host = ["--host", "db", "--port", "5432"] if r.random() < 0.5 else []
        self.exp, self.iters, self.dates, self.posids = None, None, None, None
        getattr(self, "setup_" + self.cmd)()

    def prepare(self, again):
        self.failed = set()
        self.argv = self.host + self.pargs + self.args(again)
        self.what = "%s %s" % (self.script, " ".join(str(a) for a in self.pargs + self.args("N") if not str(a).endswith(".fits")).replace(self.w.root, ""))

    def out(self, name):
        return self.w.path("work", name)

    # selections shared by the move exports
    def selections(self, ranges=False):
        r, a = self.r, []
        if r.random() < 0.45:
            e = sorted({e[0] for e in self.site.exp})
            self.exp = sorted(r.sample(e, r.randint(1, min(3, len(e)))))
            a += ["--exposure-ids", ",".join(str(x) for x in self.exp)]
        if r.random() < 0.3:
            self.iters = r.choice([[0], [1], [0, 1], [0, 2], [0, 1, 2]])
            a += ["--exposure-iters", ",".join(str(x) for x in self.iters)]
        if r.random() < 0.35:
            ts = [e[2] for e in self.site.exp]
            d0 = min(ts).date() + dt.timedelta(days=r.choice([-1, 0, 1]))
            d1 = max(ts).date() + dt.timedelta(days=r.choice([0, 1, 2]))
            self.dates = (d0, d1)
            a += ["--date-min", d0.isoformat(), "--date-max", d1.isoformat()]
        if r.random() < 0.35:
            ids = [q["pos_id"] for p in self.site.pos.values() for q in p]
            self.posids = sorted(r.sample(ids, r.randint(1, len(ids))))
            a += ["--pos-ids", ",".join(self.posids)]
        return a

    def in_dates(self, d):
        if self.dates is None:
            return True
        t = d["time_recorded"].replace(tzinfo=None)
        a, b = (dt.datetime.combine(x, dt.time()) for x in self.dates)
        return a <= t <= b

    def in_exp(self, d):
        return (self.exp is None or d["exposure_id"] in self.exp) and (self.iters is None or d["exposure_iter"] in self.iters)

    def may_fail(self, v0, v1):
        """May the command end with an error on this database, without any fault?"""
        return self.fail_ok(v1)

    def fail_ok(self, ver):
        return False

    def no_calib(self, ver, strict=True):
        """Is there a selected move older than the first calibration of its positioner?"""
        for p in self.petals:
            cal = self.db.at(ct(p), ver)
            for d in self.db.at(mt(p), ver):
                if not any(c["pos_id"] == d["pos_id"] and c["time_recorded"] <= d["time_recorded"] for c in cal):
                    return True
        return False

    # ---- get_posmoves -------------------------------------------------
    def setup_posmoves(self):
        r, w = self.r, self.w
        self.script = "get_posmoves"
        a = self.selections()
        self.movers = False
        if self.posids is None and r.random() < 0.15:
            self.movers = True
            a += ["--pos-ids", "movers"]
        self.calib = r.random() < 0.5
        self.tp = r.random() < 0.35
        self.hist = r.random() < 0.2
        self.merge = r.random() < 0.25
        self.latest = r.choice([1, 2, 5]) if r.random() < 0.15 else 0
        self.comma = "||"
        self.rehome = []
        if r.random() < 0.3:
            self.rehome = sample_exp(r, self.site.exp)
            a += ["--recent-rehome-exposure-ids", ",".join(map(str, self.rehome))]
        for on, o in ((self.calib, "--with-calib"), (self.tp, "--tp-updates"), (self.hist, "--enabled-history"), (self.merge, "--merge")):
            if on:
                a.append(o)
        if r.random() < 0.2:
            self.comma = r.choice([";", "_", " and "])
            a += ["--comma-replacement", self.comma]
        if self.latest:
            a += ["--latest", str(self.latest)]
            self.exp = self.iters = self.dates = None
            self.calib = self.tp = True
            self.hist = False
            self.rehome = []
        self.a = a
        for on, pr in ((self.calib, "with_calib"), (self.latest, "latest"), (self.hist, "enabled"), (self.movers, "movers")):
            if on:
                w.probe(pr)

    def args(self, again):
        if self.cmd == "posmoves":
            return ["-o", self.out("moves%s" % again)] + self.a
        if self.cmd in ("fvc", "dates"):
            return self.a + ["--outdir", self.out("moves%s" % again)]
        return ["-o", self.out("out%s%s" % (again, ".yaml" if self.cmd == "alignments" else ".csv"))] + self.a

    def fail_ok(self, ver):
        if self.cmd == "alignments":
            return False
        if self.cmd == "posmoves":
            if self.merge and not any(self.refs_posmoves(p, q, ver, ver, ver) for p in self.petals for q in self.selected(p, ver)):
                return True
            return self.calib and self.no_calib(ver)
        if self.cmd == "poscoords":
            return self.no_calib(ver) or not self.coords_rows(ver) or (self.one is None and not all(self.db.at(mt(p), ver) for p in self.petals))
        if self.cmd == "dates":
            return (not self.nocalib) and self.no_calib(ver)
        if self.cmd == "fvc":
            return not self.fvc_rows_possible()
        return False

    def selected(self, p, ver):
        """Positioners of the petal selected by the command."""
        ids = set()
        for d in self.db.at(mt(p), ver):
            if self.in_dates(d) and self.in_exp(d):
                ids.add(d["pos_id"])
        if self.posids is not None:
            ids &= set(self.posids)
        return ids

    def refs_posmoves(self, p, posid, vi, vd, vc):
        """Rows of the export of this positioner with the database at versions vi (indices), vd (rows), vc (calibrations)."""
        def mine(v):
            return [d for d in self.db.at(mt(p), v) if d["pos_id"] == posid and self.in_dates(d)]
        rows = mine(vd)
        keep = [d for d in rows if self.in_exp(d)]
        if self.tp and (self.exp is not None or self.iters is not None):
            idx = [d["pos_move_index"] for d in mine(vi) if self.in_exp(d)]
            if idx:
                keep = [d for d in rows if self.in_exp(d) or ("tp_update" in (d["log_note"] or "") and min(idx) <= d["pos_move_index"] <= max(idx) + 1)]
        keep.sort(key=lambda d: d["time_recorded"], reverse=True)
        if self.latest:
            keep = keep[:self.latest]
        if self.movers and not any(d["move_cmd"] for d in keep):
            return None
        out = []
        cal = sorted((c for c in self.db.at(ct(p), vc) if c["pos_id"] == posid), key=lambda c: c["time_recorded"])
        for d in keep:
            o = {{"obs_x": "X_FP", "obs_y": "Y_FP", "time_recorded": "DATE"}.get(k, k.upper()): d.get(k)
                 for k in (ENABLED["moves"] if self.hist else MOVES)}
            o["PETAL_LOC"] = LOC[p]
            if o["LOG_NOTE"] is not None:
                o["LOG_NOTE"] = o["LOG_NOTE"].replace(",", self.comma)
            o["RECENT_REHOME"] = int(d["exposure_id"] in self.rehome)
            if self.calib:
                before = [c for c in cal if c["time_recorded"] <= d["time_recorded"]]
                if not before:
                    return "no calibration"
                for k in (ENABLED["calib"] if self.hist else CALIB):
                    o["CALIB_DATE" if k == "time_recorded" else k.upper()] = before[-1][k]
            out.append(o)
        if self.hist:
            out.reverse()
            keys = ["CTRL_ENABLED"] + (["DEVICE_CLASSIFIED_NONFUNCTIONAL", "FIBER_INTACT"] if self.calib else [])
            out = [o for k, o in enumerate(out) if k == 0 or any(o[x] != out[k - 1][x] for x in keys)]
        elif not self.tp:
            out = [o for o in out if o["X_FP"] is not None]
        return out

    def judge(self, v0, v1):
        n0 = len(self.v.items)
        n = getattr(self, "judge_" + self.cmd)(v0, v1)
        if n and len(self.v.items) == n0:
            self.w.probe(self.cmd)
        return n

    def files(self, again=None):
        d = os.path.dirname(self.argv[self.argv.index("-o") + 1]) if "-o" in self.argv and self.cmd != "posmoves" else None
        d = self.argv[self.argv.index("-o" if self.cmd == "posmoves" else "--outdir") + 1] if d is None else d
        d = self.w.fs.m(d)
        out = {}
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                out[f] = self.w.durable(os.path.join(d, f))
        return out

    def same_rows(self, rows, ref, ordered=True):
        """Text of the first difference between exported rows and the reference, or None."""
        if len(rows) != len(ref):
            return "%d rows, expected %d" % (len(rows), len(ref))
        for k, (a, b) in enumerate(zip(rows, ref)):
            for c in b:
                if c not in a:
                    return "no column %s" % c
                if not eq(a[c], b[c]):
                    return "row %d: %s is %r, expected %r" % (k, c, a[c], b[c] if not isinstance(b[c], dt.datetime) else b[c].isoformat())
        return None

    def match(self, rows, fn, v0, v1, n):
        """None if the rows equal fn(versions) for some versions seen by the command, else the difference."""
        diff = None
        for vs in itertools.product(range(v1, v0 - 1, -1), repeat=n):
            ref = fn(*vs)
            if ref is None or isinstance(ref, str):
                e = "should not be exported" if ref is None else ref
            else:
                e = self.same_rows(rows, ref)
                if e is None:
                    return None
            diff = diff or e
        return diff

    def judge_posmoves(self, v0, v1):
        v, w = self.v, self.w
        files = self.files()
        n = 0
        try:
            tabs = {f: csv_rows(b)[0] for f, b in files.items()}
        except Exception as e:
            v.add("unreadable", "%s: %s" % (self.what, read_exc(e)))
            return 0
        must, may = {}, {}
        for p in self.petals:
            sel = [self.selected(p, k) for k in range(v0, v1 + 1)]
            for q in set().union(*sel):
                refs = [self.refs_posmoves(p, q, k, k, k) for k in range(v0, v1 + 1)]
                if any(x is not None for x in refs):
                    may[q] = p
                if all(q in s for s in sel) and all(x is not None for x in refs):
                    must[q] = p
        if self.merge:
            if len(tabs) != 1 and (must or tabs):
                v.add("merged-files", "%s writes %d files" % (self.what, len(tabs)))
                return 0
            rows = [r for t in tabs.values() for r in t]
            keys = [(int(r["PETAL_ID"]), r["POS_ID"]) for r in rows]
            if keys != sorted(keys):
                v.add("not-sorted", "%s: the merged rows are not in the order of petals and positioners" % self.what)
            tabs = {q + ".csv": [] for q in must}
            for r in rows:
                tabs.setdefault(r["POS_ID"] + ".csv", []).append(r)
            for q in tabs:
                tabs[q].sort(key=lambda r: r["DATE"], reverse=not self.hist)
            w.probe("merged")
        for q in sorted(must):
            if q + ".csv" not in tabs:
                v.add("missing-positioner", "%s ends well without %s" % (self.what, q))
        for f in sorted(tabs):
            q = f[:-4]
            if q not in may:
                v.add("not-selected", "%s writes %s, which is not selected" % (self.what, f))
                continue
            e = self.match(tabs[f], lambda a, b, c: self.refs_posmoves(may[q], q, a, b, c), v0, v1, 3 if v1 > v0 else 1) if v1 > v0 else \
                self.match(tabs[f], lambda a: self.refs_posmoves(may[q], q, a, a, a), v0, v1, 1)
            if e is not None:
                v.add("wrong-rows", "%s: %s: %s" % (self.what, f, e))
            if any("tp_update" in r.get("LOG_NOTE", "") for r in tabs[f]) and self.tp and (self.exp or self.iters):
                w.probe("tp_rows")
            n += 1
        return n

    # ---- get_posparams ------------------------------------------------
    def setup_posparams(self):
        self.script = "get_posparams"
        self.a = []

    def table(self):
        b = self.w.durable(self.argv[self.argv.index("-o") + 1])
        if b is None:
            self.v.add("no-output", "%s ends well and writes nothing" % self.what)
            return None
        try:
            return csv_rows(b)[0]
        except Exception as e:
            self.v.add("unreadable", "%s: %s" % (self.what, read_exc(e)))
            return None

    def judge_posparams(self, v0, v1):
        v = self.v
        rows = self.table()
        if rows is None:
            return 0
        cols = ["petal_id", "device_loc", "pos_id", "pos_calib_index", "time_recorded", "bus_id", "length_r1", "length_r2", "offset_x", "offset_y",
                "offset_t", "offset_p"]
        got = {}
        for r in rows:
            if r.get("pos_id") in got:
                v.add("twice", "%s: %s is there twice" % (self.what, r.get("pos_id")))
            got[r.get("pos_id")] = r
        may = {}
        for p in self.petals:
            for q in self.site.pos[p]:
                for k in range(v0, v1 + 1):
                    c = sorted((c for c in self.db.at(ct(p), k) if c["pos_id"] == q["pos_id"]), key=lambda c: c["time_recorded"])
                    if c:
                        may.setdefault(q["pos_id"], []).append(dict({x: c[-1][x] for x in cols}, petal_loc=LOC[p]))
                    elif k == v0:
                        may.setdefault(q["pos_id"], []).append(None)
        for q, refs in may.items():
            refs = [x for x in refs]
            if q not in got:
                if None not in refs:
                    v.add("missing-positioner", "%s ends well without %s" % (self.what, q))
                continue
            es = [self.same_rows([got[q]], [x]) for x in refs if x is not None]
            if es and all(e is not None for e in es):
                v.add("wrong-rows", "%s: %s: %s" % (self.what, q, es[-1]))
        for q in set(got) - set(may):
            v.add("not-selected", "%s has %s" % (self.what, q))
        return len(got)

    # ---- get_poscoords ------------------------------------------------
    def setup_poscoords(self):
        r = self.r
        self.script = "get_poscoords"
        self.a = []
        self.one = None
        if r.random() < 0.75:
            e = r.choice(self.site.exp)
            self.one = e[:2]
            self.a = ["--exposure-id", str(e[0])] + (["--exposure-iter", str(e[1])] if e[1] or r.random() < 0.5 else [])

    def coords_rows(self, ver, cver=None):
        from dref import pos2ptl, ptl2fp
        out = []
        for p in self.petals:
            rows = self.db.at(mt(p), ver)
            if self.one is not None:
                rows = [d for d in rows if (d["exposure_id"], d["exposure_iter"]) == tuple(self.one)]
            elif rows:
                t = max(d["time_recorded"] for d in rows)
                rows = [d for d in rows if d["time_recorded"] == t]
            for d in rows:
                cal = sorted((c for c in self.db.at(ct(p), ver if cver is None else cver)
                              if c["pos_id"] == d["pos_id"] and c["time_recorded"] <= d["time_recorded"]), key=lambda c: c["time_recorded"])
                if not cal:
                    return []
                c = cal[-1]
                o = {{"obs_x": "X_FP_MEAS", "obs_y": "Y_FP_MEAS", "time_recorded": "DATE"}.get(k, k.upper()): d.get(k) for k in MOVES}
                if o["LOG_NOTE"] is not None:
                    o["LOG_NOTE"] = o["LOG_NOTE"].replace(",", ";")
                o["PETAL_LOC"] = LOC[p]
                for k in CALIB:
                    if k not in ("petal_id", "device_loc", "pos_id", "time_recorded", "bus_id", "fiber_intact", "calib_note"):
                        o[k.upper()] = c[k]
                x, y = pos2ptl.int2ptl(d["pos_t"], d["pos_p"], c["length_r1"], c["length_r2"], c["offset_t"], c["offset_p"], c["offset_x"], c["offset_y"])
                X, Y, _ = ptl2fp.ptl2fp(LOC[p], np.array([float(x)]), np.array([float(y)]), None)
                o["_exp"] = (float(x), float(y), float(X[0]), float(Y[0]))
                out.append(o)
        return out

    def judge_poscoords(self, v0, v1):
        v = self.v
        rows = self.table()
        if rows is None:
            return 0
        rows.sort(key=lambda r: (r["PETAL_ID"], r["POS_ID"], r["DATE"]))
        diff = None
        for a, b in itertools.product(range(v1, v0 - 1, -1), repeat=2):
            ref = self.coords_rows(a, b)
            ref.sort(key=lambda r: (str(r["PETAL_ID"]), r["POS_ID"], r["DATE"]))
            e = self.same_rows(rows, [{k: x for k, x in o.items() if k != "_exp"} for o in ref])
            if e is None:
                for r, o in zip(rows, ref):
                    try:
                        g = [float(r[k]) for k in ("X_PTL_EXP", "Y_PTL_EXP", "X_FP_EXP", "Y_FP_EXP")]
                    except (KeyError, ValueError) as x:
                        e = repr(x)
                        break
                    if not max(abs(np.array(g) - o["_exp"])) < 1e-4:
                        e = "%s is expected at %s, should be %s" % (r["POS_ID"], np.round(g, 4).tolist(), np.round(o["_exp"], 4).tolist())
                        break
            if e is None:
                return len(rows)
            diff = diff or e
        # petals read between two commits: each row must agree with some version
        if v1 > v0:
            refs = {}
            for a, b in itertools.product(range(v0, v1 + 1), repeat=2):
                for o in self.coords_rows(a, b):
                    refs.setdefault((o["POS_ID"], o["DATE"].isoformat(sep=" ")), []).append({k: x for k, x in o.items() if k != "_exp"})
            for r in rows:
                es = [self.same_rows([r], [x]) for x in refs.get((r["POS_ID"], r["DATE"]), [])]
                if not es or None not in es:
                    v.add("wrong-rows", "%s: %s: %s" % (self.what, r["POS_ID"], (es or ["not in the database"])[0]))
            for p in self.petals:
                sub = [r for r in rows if r["PETAL_ID"] == str(p)]
                lens = {len([o for o in self.coords_rows(a) if o["PETAL_ID"] == p]) for a in range(v0, v1 + 1)}
                if len(sub) not in lens:
                    v.add("wrong-rows", "%s: petal %d has %d rows, expected %s" % (self.what, p, len(sub), sorted(lens)))
            return len(rows)
        v.add("wrong-rows", "%s: %s" % (self.what, diff))
        return 0

    # ---- exports with FVC data ----------------------------------------
    def fvc_tables(self):
        """(exposure, iteration) -> {DEVICE_ID: (x, y)}: what desi_fvc_proc found."""
        r = random.Random("fvc/%d" % self.plan["aseed"])
        out = {}
        for e in self.site.exp:
            t = {}
            for p in sorted(self.site.pos):
                for q in self.site.pos[p]:
                    if r.random() < 0.85:
                        t[q["pos_id"]] = (1000 * LOC[p] + q["device_loc"], round(r.uniform(-280, 280), 5), round(r.uniform(-280, 280), 5))
            out[e[:2]] = t
        return out

    @staticmethod
    def fvc_csv(t):
        s = "LOCATION,DEVICE_ID,X_FP,Y_FP\n" + "".join("%d,%s,%r,%r\n" % (l, q, x, y) for q, (l, x, y) in sorted(t.items()))
        return (s + "-1,none,1.5,2.5\n").encode()

    def setup_fvc(self):
        import fitsio
        r, w = self.r, self.w
        self.script = "get_posmoves_with_fvc_data"
        a = self.selections()
        self.tabs = self.fvc_tables()
        self.have = {}
        names = []
        self.bad = set()
        self.rehome = []
        if r.random() < 0.3:
            self.rehome = sample_exp(r, self.site.exp)
            a += ["--recent-rehome-exposure-ids", ",".join(map(str, self.rehome))]
        for k, e in enumerate(self.site.exp):
            if r.random() < 0.15 and k:
                continue
            f = w.path("work", "img", "fvc.%08d.fits" % k)
            names.append(f)
            if r.random() < 0.08:
                continue
            w.put(f, b"")
            os.unlink(w.fs.m(f))
            h = [{"name": "OBSNUM", "value": e[0]}, {"name": "OBSFRM", "value": e[1]}]
            if r.random() < 0.08:
                h.pop()
            fitsio.write(w.fs.m(f), np.zeros((3, 3)), header=h)
            if len(h) < 2:
                continue
            self.have[e[:2]] = self.tabs[e[:2]]
            c = w.path("work", "csv", "fvc.%08d.csv" % k)
            if r.random() < 0.6:
                w.put(c, self.fvc_csv(self.tabs[e[:2]]))
            elif r.random() < 0.25:
                self.bad.add(e[:2])
                self.have.pop(e[:2])
        os.makedirs(w.path("work", "csv"), exist_ok=True)
        r.shuffle(names)
        site, tabs, bad = self.site, self.tabs, self.bad

        def proc(world, args):
            i, o = args[args.index("-i") + 1], args[args.index("-o") + 1]
            e = site.exp[int(os.path.basename(i).split(".")[1])][:2]
            if e in bad:
                return ProgramResult(3, "")

            def body():
                with open(o, "wb") as f:
                    f.write(self.fvc_csv(tabs[e]))
            st, val = w.call(w.new_process("fvcproc"), body)
            if st != "ok":
                self.failed.add(e)
                w.probe("fvc_proc_failed")
                return ProgramResult(-9 if st == "crash" else 1, "")
            return ProgramResult(0, "")
        w.programs["desi_fvc_proc"] = proc
        self.a = ["--fvc-images"] + names + ["--fvc-data-dir", w.path("work", "csv")] + a

    def fvc_have(self):
        return {e: t for e, t in self.have.items() if e not in self.failed and (self.exp is None or e[0] in self.exp) and (self.iters is None or e[1] in self.iters)}

    def fvc_rows_possible(self):
        # rows without an exposure cannot be matched by the command
        none = any(d.get("exposure_id") is None or d.get("exposure_iter") is None for p in self.petals for d in self.db.at(mt(p), self.db.version)
                   if (self.posids is None or d["pos_id"] in self.posids) and self.in_dates(d)) and self.exp is None and self.iters is None
        return bool(self.fvc_have()) and any(self.fvc_have().values()) and not none

    def judge_fvc(self, v0, v1):
        from dref import ptl2fp
        v = self.v
        files = self.files()
        n = 0
        have = self.fvc_have()
        for p in self.petals:
            ids = [q["pos_id"] for q in self.site.pos[p]]
            for q in ids:
                if self.posids is not None and q not in self.posids:
                    if q + ".csv" in files:
                        v.add("not-selected", "%s writes %s.csv" % (self.what, q))
                    continue

                def ref(ver):
                    out = []
                    for d in self.db.at(mt(p), ver):
                        e = (d["exposure_id"], d["exposure_iter"])
                        if d["pos_id"] != q or not self.in_dates(d) or not self.in_exp(d) or q not in have.get(e, {}):
                            continue
                        o = {{"time_recorded": "DATE"}.get(k, k.upper()): d.get(k) for k in MOVES if k not in ("obs_x", "obs_y", "ptl_x", "ptl_y")}
                        if o["LOG_NOTE"] is not None:
                            o["LOG_NOTE"] = o["LOG_NOTE"].replace(",", ";")
                        o.update(PETAL_LOC=LOC[p], RECENT_REHOME=int(d["exposure_id"] in self.rehome), X_FP=have[e][q][1], Y_FP=have[e][q][2])
                        out.append(o)
                    out.sort(key=lambda o: o["DATE"])
                    return out
                if q + ".csv" not in files:
                    if all(ref(k) for k in range(v0, v1 + 1)):
                        v.add("missing-positioner", "%s ends well without %s" % (self.what, q))
                    continue
                try:
                    rows = csv_rows(files[q + ".csv"])[0]
                    rows.sort(key=lambda r: r["DATE"])
                except Exception as e:
                    v.add("unreadable", "%s: %s" % (self.what, read_exc(e)))
                    continue
                e = self.match(rows, ref, v0, v1, 1)
                if e is not None:
                    v.add("wrong-rows", "%s: %s: %s" % (self.what, q, e))
                    continue
                n += 1
                for r in rows:
                    x, y, _ = ptl2fp.fp2ptl(LOC[p], np.array([float(r["X_FP"])]), np.array([float(r["Y_FP"])]))
                    if not abs(float(r["PTL_X"]) - x[0]) < 1e-4 or not abs(float(r["PTL_Y"]) - y[0]) < 1e-4:
                        v.add("wrong-petal", "%s: %s: petal coordinates %s, %s should be %.4f, %.4f" % (self.what, q, r["PTL_X"], r["PTL_Y"], x[0], y[0]))
        return n

    def setup_dates(self):
        r, w = self.r, self.w
        self.script = "get_posmoves_with_fvc_data_using_dates"
        a = []
        self.offset = r.choice([0, 0, 0, -276, 3])
        self.deltat = r.choice([25, 25, 10, 60])
        self.nocalib = r.random() < 0.5
        if self.offset:
            a += ["--clock-offset=%d" % self.offset]
        if self.deltat != 25:
            a += ["--deltat-max", str(self.deltat)]
        if self.nocalib:
            a.append("--nocalib")
        if r.random() < 0.3:
            ts = [e[2] for e in self.site.exp]
            self.dates = (min(ts).date() + dt.timedelta(days=r.choice([-1, 0, 1])), max(ts).date() + dt.timedelta(days=r.choice([0, 1, 2])))
            a += ["--date-min", self.dates[0].isoformat(), "--date-max", self.dates[1].isoformat()]
        self.tabs = self.fvc_tables()
        self.list = []
        taken = {d["time_recorded"].replace(microsecond=0, tzinfo=None) for b in [self.site.rows] + self.site.extra for n in b for d in b[n]}
        s = []
        for k, e in enumerate(self.site.exp):
            if r.random() < 0.15 and k:
                continue
            t = e[2].replace(microsecond=0, tzinfo=None) + dt.timedelta(seconds=r.choice([1, 2, 5, 12, 20, 33]))
            while t in taken:
                t += dt.timedelta(seconds=1)
            taken.add(t)
            f = w.path("work", "csv", "fvc%d.csv" % k)
            gone = r.random() < 0.1
            if not gone:
                w.put(f, self.fvc_csv(self.tabs[e[:2]]))
            self.list.append((t, {} if gone else self.tabs[e[:2]]))
            s.append("%s,%s\n" % (f, (t - dt.timedelta(seconds=self.offset)).strftime("%Y-%m-%dT%H:%M:%S")))
        self.list.sort(key=lambda x: x[0])
        r.shuffle(s)
        w.put(w.path("work", "list.csv"), "FILE,DATE\n" + "".join(s))
        self.a = ["--fvc-file-list", w.path("work", "list.csv")] + a

    def judge_dates(self, v0, v1):
        v = self.v
        files = self.files()
        n = 0
        for p in self.petals:
            for q in self.site.pos[p]:
                q = q["pos_id"]

                def ref(ver, cver):
                    out = []
                    for d in self.db.at(mt(p), ver):
                        t = d["time_recorded"].replace(microsecond=0, tzinfo=None)
                        if d["pos_id"] != q or not self.in_dates(d):
                            continue
                        nx = [x for x in self.list if x[0] > t]
                        if not nx or (nx[0][0] - t).total_seconds() > self.deltat or q not in nx[0][1]:
                            continue
                        o = {k.upper(): d.get(k) for k in MOVES if k not in ("obs_x", "obs_y", "ptl_x", "ptl_y", "exposure_id", "exposure_iter", "flags",
                                                                             "time_recorded")}
                        if o["LOG_NOTE"] is not None:
                            o["LOG_NOTE"] = o["LOG_NOTE"].replace(",", ";")
                        o.update(PETAL_LOC=LOC[p], X_FP=nx[0][1][q][1], Y_FP=nx[0][1][q][2], DELTAT=(nx[0][0] - t).total_seconds(),
                                 TSTAMP_POSMOVE=t.replace(tzinfo=UTC).timestamp(),
                                 TSTAMP_FVC=nx[0][0].replace(tzinfo=UTC).timestamp() - self.offset)
                        if not self.nocalib:
                            cal = sorted((c for c in self.db.at(ct(p), cver) if c["pos_id"] == q and c["time_recorded"].replace(microsecond=0, tzinfo=None) < t),
                                         key=lambda c: c["time_recorded"])
                            if not cal:
                                return "no calibration"
                            for k in CALIB[6:-4]:
                                o[k.upper()] = cal[-1][k]
                        out.append(o)
                    out.sort(key=lambda o: o["TSTAMP_POSMOVE"])
                    return out
                if q + ".csv" not in files:
                    if all(isinstance(ref(k, k), list) and ref(k, k) for k in range(v0, v1 + 1)):
                        v.add("missing-positioner", "%s ends well without %s" % (self.what, q))
                    continue
                try:
                    rows = csv_rows(files[q + ".csv"])[0]
                except Exception as e:
                    v.add("unreadable", "%s: %s" % (self.what, read_exc(e)))
                    continue
                e = self.match(rows, ref, v0, v1, 2)
                if e is not None and v1 > v0 and self.mixed(rows, ref, v0, v1):
                    e = None
                if e is not None:
                    v.add("wrong-rows", "%s: %s: %s" % (self.what, q, e))
                    continue
                n += 1
        return n

    def mixed(self, rows, ref, v0, v1):
        """The rows of some versions seen (the times and the rows are read by two statements)."""
        allr = [o for a in range(v0, v1 + 1) for b in range(v0, v1 + 1) for o in (ref(a, b) if isinstance(ref(a, b), list) else [])]
        return all(any(self.same_rows([r], [o]) is None for o in allr) for r in rows)

    def setup_alignments(self):
        self.script = "load_petal_alignments_from_db"
        self.pargs = []
        self.a = []

    def judge_alignments(self, v0, v1):
        import yaml
        b = self.w.durable(self.argv[self.argv.index("-o") + 1])
        try:
            got = yaml.safe_load(b.decode())
        except Exception as e:
            self.v.add("unreadable", "%s: %s" % (self.what, read_exc(e)))
            return 0
        if got != self.db.align:
            self.v.add("wrong-alignment", "%s: %s" % (self.what, [k for k in self.db.align if got is None or got.get(k) != self.db.align[k]][:4]))
        return 1


PROP = P()
