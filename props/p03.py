"""P03  spotmatch: each call gets the matches of its own spots, or an error."""
import os
import random

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.subproc import ProgramResult
from dsim.util import (Viol, new_world, table_dict, read_exc, install_finder, Scheduler, patch_locks)
from dsim.world import PYDIR
from dsim.vfs import HarnessError, SimCrash

NUM = {515: 1, 1027: 2, 259: 3, 771: 4}


def match(targets, spots, radius):
    """The matching rule of the simulated program.

    targets: [(id, x, y, flag)], spots: [(x, y)].  Returns rows
    (id, x, y, mag, flag, err, type) in the order of the spots, then the
    fiducial centres."""
    out = []
    fid = {}
    pos = [t for t in targets if t[3] == 4]
    fids = [t for t in targets if t[3] == 8]
    px = np.array([[t[1], t[2]] for t in pos]).reshape(-1, 2)
    fx = np.array([[t[1], t[2]] for t in fids]).reshape(-1, 2)
    for k, (x, y) in enumerate(spots):
        d = np.hypot(fx[:, 0] - x, fx[:, 1] - y) if len(fx) else np.array([1e9])
        j = int(np.argmin(d))
        if d[j] < 27:
            out.append((fids[j][0], x, y, 12.0, 2, 0.5, "pinhole"))
            fid.setdefault(fids[j][0], []).append((x, y))
            continue
        d = np.hypot(px[:, 0] - x, px[:, 1] - y) if len(px) else np.array([1e9])
        j = int(np.argmin(d))
        if d[j] < radius:
            out.append((pos[j][0], x, y, 12.5, 4, round(float(d[j]), 3) % 7, "positioner"))
        else:
            out.append((-1 - k, x, y, 13.0, 1, 9.0, "unknown"))
    for f in sorted(fid):
        m = np.mean(np.array(fid[f]), axis=0)
        out.append((f, float(m[0]), float(m[1]), 11.0, 8, 0.1, "fiducial"))
    return out


class Program:
    """match_positions, as the desimeter wrapper sees it."""

    def __init__(self, prop, world, plan):
        self.prop, self.w, self.plan = prop, world, plan
        self.n = 0
        self.problems = []
        self.current = {}

    def __call__(self, w, argv):
        parent = w.current_proc()
        n = self.n
        self.n += 1
        p = w.new_process("match%d" % n, preload=False)
        p.environ = dict(parent.environ) if parent is not None else p.environ
        f = None
        for x in self.plan.get("prog", []):
            if x["at"] == n:
                f = x["kind"]
        st, val = w.call(p, self.body, argv[1:], f)
        if st == "ok":
            return val
        if st == "crash":
            return ProgramResult(-9, "Killed")
        if isinstance(val, HarnessError):
            raise val
        return ProgramResult(1, "match_positions: %s" % type(val).__name__)

    def body(self, argv, fault):
        w = self.w
        a = {}
        if len(argv) % 2:
            self.problems.append("odd number of arguments")
            return ProgramResult(2, "usage")
        for k in range(0, len(argv), 2):
            a[argv[k].lstrip("-")] = argv[k + 1]
        need = ["image_rows", "image_cols", "match_radius", "exp_pixel_scale", "reduced_pos_file",
                "fiducial_config_file", "target_pos_file", "measured_pos_file", "pos_save_file",
                "reference_pos_file", "device_centers_file", "fid_x_dir", "fid_y_dir", "target_x_dir",
                "target_y_dir", "target_x0", "target_y0"]
        miss = [k for k in need if k not in a]
        if miss:
            self.problems.append("missing options %s" % miss)
            return ProgramResult(2, "usage")
        if fault == "segv":
            w.count_fault("prog_segv")
            return ProgramResult(139, "Segmentation fault")
        if fault == "killed":
            w.count_fault("prog_killed")
            return ProgramResult(-9, "")
        if self.plan.get("old") and "positioner_reach" in a:
            w.count_fault("prog_old")
            return ProgramResult(255, "ERROR unexpected command-line argument [ -positioner_reach ]\n")
        if fault == "noout":
            w.count_fault("prog_noout")
            return ProgramResult(0, "0 spots")
        files = {}
        for k in ("fiducial_config_file", "target_pos_file", "measured_pos_file",
                  "reference_pos_file", "device_centers_file"):
            with open(a[k]) as f:
                files[k] = [ln.split() for ln in f.read().splitlines() if ln.strip()]
            w.yield_point("prog")
        targets = [(int(t[0]), float(t[1]), float(t[2]), int(t[5])) for t in files["target_pos_file"]]
        spots = [(float(t[0]), float(t[1])) for t in files["measured_pos_file"]]
        self.check_static(files, a)
        rows = match(targets, spots, float(a["match_radius"]))
        txt = "".join("%d %.3f %.3f %.3f %d %.3f %s\n" % r for r in rows)
        w.yield_point("prog")
        w.tick(1.0)
        if fault == "late":
            w.count_fault("prog_late")
            with open(a["reduced_pos_file"], "w") as f:
                f.write(txt[:len(txt) // 2])
            return ProgramResult(134, "Aborted")
        with open(a["reduced_pos_file"], "w") as f:
            f.write(txt)
        with open(a["pos_save_file"], "w") as f:
            f.write(txt)
        w.yield_point("prog")
        return ProgramResult(0, "matched %d" % len(rows))

    def check_static(self, files, a):
        """Inputs which depend on the metrology and the transform only."""
        prop = self.prop
        fp, txs = prop.inst.fp, prop.txs
        sc = float(a["exp_pixel_scale"])
        if not any(abs(sc / s - 1) < 0.01 for s in prop.scales):
            self.problems.append("exp_pixel_scale %g" % sc)
        if "positioner_reach" in a and abs(float(a["positioner_reach"]) * sc / 6.6 - 1) > 0.01:
            self.problems.append("positioner_reach %s" % a["positioner_reach"])
        err = None
        for tx in txs:
            err = self._static(files, fp, tx)
            if err is None:
                return
        self.problems.append(err)

    def _static(self, files, fp, tx):
        x, y = tx.fp2fvc(fp.x, fp.y)
        want = {}
        for i in list(fp.ifid):
            if 1 <= fp.pin[i] <= 4:
                want[(int(fp.loc[i]), int(fp.pin[i]))] = (x[i], y[i])
        got = {}
        for t in files["reference_pos_file"]:
            if int(t[4]) not in NUM:
                return "unknown pinhole code %s in the reference file" % t[4]
            got[(int(t[0]), NUM[int(t[4])])] = (float(t[1]), float(t[2]))
        e = _cmp("pinhole reference", want, got, 0.02)
        if e:
            return e
        want = {(int(fp.loc[i]), 4): (x[i], y[i]) for i in fp.ipos}
        for L in fp.fidlocs:
            ii = np.where(fp.loc == L)[0]
            cx, cy = tx.fp2fvc(np.array([fp.x[ii].mean()]), np.array([fp.y[ii].mean()]))
            want[(int(L), 8)] = (cx[0], cy[0])
        got = {(int(t[0]), int(t[5])): (float(t[1]), float(t[2])) for t in files["device_centers_file"]}
        e = _cmp("device centre", want, got, 0.02)
        if e:
            return e
        want, got = {}, {}
        for L in fp.fidlocs:
            ii = np.where(fp.loc == L)[0]
            mx, my = fp.x[ii].mean(), fp.y[ii].mean()
            want[(int(L), 0)] = (0.0, 0.0)
            for i in ii:
                if fp.pin[i] <= 4:
                    want[(int(L), int(fp.pin[i]))] = (fp.x[i] - mx, fp.y[i] - my)
        for t in files["fiducial_config_file"]:
            got[(int(t[0]), int(t[5]))] = (float(t[1]), float(t[2]))
        return _cmp("fiducial configuration", want, got, 0.002)


def _cmp(what, want, got, tol):
    if set(want) != set(got):
        d = sorted(set(want) ^ set(got))
        return "%s file lists other devices: %s" % (what, d[:4])
    for k in want:
        if max(abs(want[k][0] - got[k][0]), abs(want[k][1] - got[k][1])) > tol:
            return "%s %s at %s, expected (%.3f, %.3f)" % (what, k, got[k], want[k][0], want[k][1])
    return None


class P(Prop):
    id = "P03"
    level = "exploration"
    rule = ("one case = one seeded history of sequential and concurrent spotmatch calls (threads and "
            "processes) over an external matcher which may crash, lack an option or write nothing, with "
            "disk faults and process deaths; non-trivial = at least one call returned a table")
    state_measure = "(call shape, concurrency, faults fired, outcome class)"
    real = ["spotmatch", "processfvc --use-spotmatch", "fvc2fp", "io"]
    stubs = ["the program match_positions", "file system faults", "process spawning", "fibre view camera"]
    assumptions = ["match_positions exits with a non-zero status when it could not write its complete output"]
    must_probe = ["call_ok", "threads", "procs", "prog_old", "prog_segv", "prog_noout", "enospc", "crash",
                  "fvc_proc"]
    tiers = {"quick": {"runs": 160, "cap_s": 60, "run_timeout": 120, "min_s": 60},
             "thorough": {"runs": 12000, "cap_s": 2400, "run_timeout": 120, "min_s": 180}}

    def setup(self, base):
        install_finder()
        self.base = base
        self.inst = I.tiny(base, 0)
        self.tx0 = self.inst.tx(None)
        self.tx1 = self.inst.tx(None)
        self.tx1.offset_x += 0.01
        self.tx1.rotation += 0.01
        self.tx1.scale *= 1.03
        self.txs = [self.tx0, self.tx1]
        self.scales = [self._scale(t) for t in self.txs]

    def _scale(self, tx):
        # as documented: square root of the determinant of the jacobian at (3000,3000)
        x, y = tx.fvc2fp(np.array([3000., 3000.1, 3000.]), np.array([3000., 3000., 3000.1]))
        return np.sqrt(abs((x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]))) / 0.1

    def gen(self, seed, tier):
        r = random.Random("p03gen/%d" % seed)
        cfg = r.choice(["seq", "fault", "threads", "procs", "procs", "procfault"])

        def call():
            c = {"kind": "spotmatch", "seed": r.getrandbits(30), "proc": r.randrange(2),
                 "expected": r.choice([None, "own", "own", "subset"]), "tx": r.choice([None, 0, 1, 1]),
                 "radius": r.choice([40, 70, 70, 100]), "ghosts": r.choice([0, 0, 2]),
                 "verbose": r.choice([0, 0, 1]), "drop": r.choice([0, 0, 0.2])}
            if r.random() < 0.2:
                c["kind"] = "fvc_proc"
            return c
        steps = []
        for k in range(r.randint(1, 3)):
            if cfg in ("threads", "procs", "procfault"):
                cs = [call() for _ in range(r.randint(2, 3))]
                for j, c in enumerate(cs):
                    c["proc"] = j if cfg != "threads" else 0
                steps.append({"op": "par", "calls": cs})
            else:
                steps.append({"op": "call", "calls": [call()]})
        prog, faults = [], []
        for _ in range(r.choice([0, 1, 1, 2])):
            prog.append({"at": r.randrange(5), "kind": r.choice(["segv", "killed", "noout", "late"])})
        if "fault" in cfg:
            for _ in range(r.choice([1, 1, 2])):
                k = r.choice(["crash", "torn", "enospc", "eio", "short", "emfile"])
                ops = {"torn": ["write"], "short": ["write"],
                       "enospc": r.choice([["write"], ["open_w", "write", "mkdir"]]),
                       "eio": r.choice([["write"], ["open_r"]]), "emfile": ["open_r", "open_w"],
                       "crash": r.choice([["write", "open_w"], ["open_r"], ["write"]])}[k]
                faults.append({"kind": k, "at": r.randrange(r.choice([3, 12])), "ops": ops,
                               "frac": round(r.random(), 3)})
        return {"seed": seed, "config": cfg, "steps": steps, "prog": prog, "faults": faults,
                "old": r.random() < 0.2, "bufsize": r.choice([512, 8192]),
                "sched": {"seed": seed, "p": r.choice([0, 0.005, 0.05]), "p_io": r.choice([0.2, 0.5, 0.8])},
                "_lists": ["steps", "prog", "faults"], "_simpler": {"old": False}}

    # ------------------------------------------------------------------
    def _inputs(self, c):
        """The inputs of a call and the rows the program computes from them."""
        rng = random.Random("p03/%d" % c["seed"])
        fp = self.inst.fp
        tx = self.tx1 if c["tx"] == 1 and c["kind"] == "spotmatch" else self.tx0
        if c["expected"] is None or c["kind"] != "spotmatch":
            rmax = 2.2
        else:
            rmax = 4.3
        ex = I.Exposure(self.inst, rng, rmax=rmax, tx=tx)
        if c["kind"] == "spotmatch" and c["drop"]:
            ex = ex.select(np.array([rng.random() > c["drop"] for _ in range(ex.n)]))
        perm = list(range(ex.n))
        rng.shuffle(perm)
        sx, sy = ex.xpix[perm], ex.ypix[perm]
        if c["expected"] is None or c["kind"] != "spotmatch":
            loc, x, y = fp.loc[fp.ipos], fp.x[fp.ipos], fp.y[fp.ipos]
        else:
            pp = ex.pin == 0
            loc, x, y = ex.loc[pp], ex.xfp[pp].copy(), ex.yfp[pp].copy()
            x += np.array([rng.gauss(0, 0.05) for _ in x])
            y += np.array([rng.gauss(0, 0.05) for _ in x])
            q = list(range(len(loc)))
            rng.shuffle(q)
            if c["expected"] == "subset":
                q = q[:max(1, len(q) // 2)]
            loc, x, y = loc[q], x[q], y[q]
        tp = []
        px, py = tx.fp2fvc(x, y)
        for L, a, b in zip(loc, px, py):
            tp.append((int(L), round(float(a), 3), round(float(b), 3), 4))
        for L in fp.fidlocs:
            ii = np.where(fp.loc == L)[0]
            a, b = tx.fp2fvc(np.array([fp.x[ii].mean()]), np.array([fp.y[ii].mean()]))
            tp.append((int(L), round(float(a[0]), 3), round(float(b[0]), 3), 8))
        rows = match(tp, [(round(float(a), 3), round(float(b), 3)) for a, b in zip(sx, sy)], c["radius"])
        return ex, sx, sy, loc, x, y, rows

    def _judge(self, v, c, inp, t, where):
        ex, sx, sy, loc, x, y, rows = inp
        n = len(rows)
        for col in ("LOCATION", "XPIX", "YPIX", "FLAG", "ERR", "SPOTMATCH_DEVICE_TYPE", "DEVICE_ID",
                    "DEVICE_TYPE", "DEVICE_LOC", "PETAL_LOC", "PINHOLE_ID"):
            if col not in t:
                v.add("missing-column", "%s (%s)" % (col, where))
                return
        if len(t["LOCATION"]) != n:
            v.add("wrong-rows", "%d rows, the program matched %d (%s)" % (len(t["LOCATION"]), n, where))
            return
        fp = self.inst.fp
        info = {}
        for i in list(fp.ipos) + list(fp.ifid):
            info[int(fp.loc[i])] = (fp.dt[i], int(fp.pet[i]), int(fp.dev[i]), fp.devid[i])
        for k, r in enumerate(rows):
            g = [t[q][k] for q in ("LOCATION", "XPIX", "YPIX", "FLAG", "ERR", "SPOTMATCH_DEVICE_TYPE")]
            bad = int(g[0]) != r[0] or abs(g[1] - r[1]) > 0.0021 or abs(g[2] - r[2]) > 0.0021 \
                or float(g[3]) != r[4] or str(g[5]) != r[6]
            if not bad and r[6] != "positioner":
                bad = abs(g[4] - r[5]) > 1e-3
            if bad:
                v.add("wrong-match", "row %d is %s, the program matches %s (%s)" % (k, g, list(r), where))
                return
            if r[0] >= 0:
                dt, pe, de, di = info[r[0]]
                h = (str(t["DEVICE_TYPE"][k]), int(t["PETAL_LOC"][k]), int(t["DEVICE_LOC"][k]),
                     str(t["DEVICE_ID"][k]))
                if h[:3] != (dt, pe, de) or (di not in ("", "--", "None", "nan") and h[3] != di[:7]):
                    v.add("wrong-device", "LOCATION %d is described as %s, metrology %s (%s)" % (
                        r[0], h, (dt, pe, de, di), where))
                    return
        pin = {}
        for k, r in enumerate(rows):
            pin.setdefault((r[0], r[6]), []).append(int(t["PINHOLE_ID"][k]))
        for (L, ty), ids in pin.items():
            ok = True
            if ty == "fiducial":
                ok = ids == [99]
            elif ty == "pinhole":
                ok = sorted(ids) == list(range(10, 10 + len(ids)))
            else:
                ok = all(i == 0 for i in ids)
            if not ok:
                v.add("wrong-pinhole-id", "%s rows of %d have PINHOLE_ID %s (%s)" % (ty, L, ids, where))
                return

    def run(self, plan, root, keep_log=0):
        v = Viol()
        w = new_world(root, plan, keep_log)
        w.use_data(self.inst.datadir, inside=False)
        prog = Program(self, w, plan)
        w.programs["match_positions"] = prog
        procs = {}
        stats = {"ok": 0}
        nsw = [0]
        w.install()
        patch_locks(w)
        try:
            def proc(n):
                p = procs.get(n)
                if p is None or p.dead:
                    p = procs[n] = w.new_process("p%d" % n)
                return p

            def body(c, inp, k):
                ex, sx, sy, loc, x, y, rows = inp
                if c["kind"] == "fvc_proc":
                    from desimeter.processfvc import get_parser, fvc_proc
                    from desimeter.log import get_logger
                    from astropy.table import Table
                    a = get_parser().parse_args(["-i", k[0], "-o", k[1], "--use-spotmatch",
                                                 "--spotmatch-match-radius-pixels", str(c["radius"])])
                    e = fvc_proc(a, get_logger())
                    if e:
                        raise RuntimeError("fvc_proc returned %s" % e)
                    return table_dict(Table.read(k[1]))
                from desimeter.spotmatch import spotmatch
                from desimeter.transform.fvc2fp import FVC2FP
                kw = {"match_radius_pixels": c["radius"], "verbose": c["verbose"]}
                if c["tx"] is not None:
                    kw["fvc2fp"] = FVC2FP.fromjson((self.tx0, self.tx1)[c["tx"]].tojson())
                if c["expected"] is not None:
                    kw.update(expected_x_fp=x.copy(), expected_y_fp=y.copy(), expected_location=loc.copy())
                return table_dict(spotmatch(sx.copy(), sy.copy(), **kw))

            cnt = [0]

            def prep(c):
                inp = self._inputs(c)
                k = None
                if c["kind"] == "fvc_proc":
                    w.probe("fvc_proc")
                    cnt[0] += 1
                    txt = "XPIX,YPIX,XERR,YERR,COUNTS\n" + "".join(
                        "%.6f,%.6f,0.01,0.01,50000\n" % q for q in zip(inp[1], inp[2]))
                    k = (w.put(w.path("work", "spots%d.csv" % cnt[0]), txt),
                         w.path("work", "out%d.csv" % cnt[0]))
                return inp, k

            def judge(c, inp, res, faulted, where):
                st, val = res
                w.state(c["kind"], c["expected"], c["tx"], c["drop"] > 0, where, sorted(w.fired), st)
                w.log("res", c["kind"], st, type(val).__name__)
                if prog.problems:
                    v.add("bad-program-input", "%s (%s)" % (prog.problems[0], where))
                    return
                if st == "ok":
                    w.probe("call_ok")
                    stats["ok"] += 1
                    if c["kind"] == "fvc_proc":
                        self._judge_fvc(v, inp[0], val, where)
                    else:
                        self._judge(v, c, inp, val, where)
                elif not faulted:
                    v.add("spurious-failure", "%s failed without a fault (%s): %s" % (
                        c["kind"], where, read_exc(val) if st == "exc" else val))

            def nf():
                return sum(n for k, n in w.fired.items() if k != "prog_old")
            for step in plan["steps"]:
                if v:
                    break
                todo = [(c,) + prep(c) for c in step["calls"]]
                f0 = nf()
                if step["op"] == "call":
                    c, inp, k = todo[0]
                    judge(c, inp, w.call(proc(c["proc"]), body, c, inp, k), nf() > f0, "sequential")
                    continue
                sch = Scheduler(w, plan["sched"], trace_prefixes=(
                    (os.path.join(PYDIR, "desimeter", "spotmatch.py"),) if plan["sched"]["p"] else ()))
                w.sched = sch
                ts = []
                for j, (c, inp, k) in enumerate(todo):
                    ts.append((c, inp, sch.spawn("t%d" % j, proc(c["proc"]),
                                                 lambda c=c, inp=inp, k=k: body(c, inp, k))))
                w.probe("threads" if plan["config"] == "threads" else "procs")
                sch.run()
                nsw[0] += len(sch.switches)
                if sch.deadlock:
                    v.add("deadlock", "concurrent calls never finish")
                    break
                for c, inp, t in ts:
                    judge(c, inp, t.result, nf() > f0, "concurrent")
            if not v:
                w.clear_faults()
                plan_prog, prog.plan = prog.plan, dict(plan, prog=[])
                procs.clear()
                c = {"kind": "spotmatch", "seed": plan["seed"], "expected": "own", "tx": 1, "radius": 70,
                     "verbose": 0, "drop": 0}
                inp, k = prep(c)
                judge(c, inp, w.call(proc(0), body, c, inp, k), False, "recovery")
        finally:
            w.uninstall()
        return outcome(w, v.items, nontrivial=stats["ok"] > 0, steps=nsw[0])

    def _judge_fvc(self, v, ex, t, where):
        from scipy.spatial import cKDTree
        loc = np.array(t["LOCATION"], int)
        pin = np.array(t["PINHOLE_ID"], int)
        typ = np.array(t["SPOTMATCH_DEVICE_TYPE"]).astype(str)
        x, y = np.array(t["X_FP"], float), np.array(t["Y_FP"], float)
        tree = cKDTree(np.c_[ex.xpix, ex.ypix])
        d, i = tree.query(np.c_[np.array(t["XPIX"], float), np.array(t["YPIX"], float)])
        # pinholes are replaced by the centre of their fiducial
        fib = (ex.pin[i] == 0) & (d < 0.01)
        if sorted(i[fib].tolist()) != np.where(ex.pin == 0)[0].tolist():
            v.add("wrong-rows", "%d fibres out of %d after spotmatch (%s)" % (
                fib.sum(), (ex.pin == 0).sum(), where))
            return
        wrong = (loc != ex.loc[i]) & (fib | (typ == "fiducial"))
        if wrong.any():
            k = int(np.where(wrong)[0][0])
            v.add("wrong-match", "spot of %d labelled %d (%s)" % (ex.loc[i[k]], loc[k], where))
            return
        if not (pin[fib] == 0).all() or not (pin[typ == "fiducial"] == 99).all():
            v.add("wrong-pinhole-id", "PINHOLE_ID of fibres or fiducial centres (%s)" % where)
            return
        tx_, ty_ = ex.xfp[i].copy(), ex.yfp[i].copy()
        for k in np.where(typ == "fiducial")[0]:
            ii = (ex.loc == loc[k])
            tx_[k], ty_[k] = ex.xfp[ii].mean(), ex.yfp[ii].mean()
        dr = np.hypot(x - tx_, y - ty_)[fib | (typ == "fiducial")]
        if not np.isfinite(dr).all() or dr.max() > 0.05:
            v.add("wrong-position", "X_FP,Y_FP %.3f mm from the truth (%s)" % (np.nanmax(dr), where))


PROP = P()
