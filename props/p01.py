"""P01  process_fvc: the caller gets the spots of that image, or a failure."""
import os
import random

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.subproc import ProgramResult
from dsim.util import (Viol, fork_call, new_world, truth_check, same_table, table_dict,
                       read_exc, install_finder, Scheduler, patch_locks)

NIMG = 6


def _desi_fvc_proc(world, argv):
    """`desi_fvc_proc` found on the PATH: the real script in its own process."""
    parent = world.current_proc()
    p = world.new_process("child-%s" % (parent.name if parent else "x"))
    p.cwd = world.cwd
    st, val = world.run_script(p, "desi_fvc_proc", argv[1:])
    code = {"ok": 0, "exit": val if isinstance(val, int) else (0 if val is None else 1),
            "exc": 1, "crash": -9}[st]
    if st == "exc":
        world.log("child-exc", type(val).__name__)
    return ProgramResult(code, "")


class P(Prop):
    id = "P01"
    level = "exploration"
    rule = ("one case = one seeded history of image arrivals, replacements, process restarts and "
            "process_fvc calls (in-process and subprocess) with a fault plan; non-trivial = at least "
            "one call returned a table")
    state_measure = "(call mode, overwrite, cache present, fault kind fired, outcome class)"
    real = ["processfvc", "detectspots", "findfiducials", "fvc2fp", "match", "io", "bin/desi_fvc_proc"]
    stubs = ["file system faults", "fibre view camera images (reference optics)", "process spawning"]
    assumptions = ["the FVC image file itself is complete before process_fvc is called on it",
                   "rename within a directory is atomic and durable once it returns"]
    must_probe = ["call_ok", "cache_hit_possible", "torn", "crash", "enospc"]
    tiers = {"quick": {"runs": 160, "cap_s": 75, "run_timeout": 120, "min_s": 60},
             "thorough": {"runs": 6000, "cap_s": 2400, "run_timeout": 120, "min_s": 180}}

    def setup(self, base):
        install_finder()
        self.base = base
        self.inst = I.tiny(base, 0)
        self.imgs = []
        for k in range(NIMG):
            rng = random.Random("p01/%d" % k)
            ex = I.Exposure(self.inst, rng)
            b = I.fits_bytes([("F0000" if k % 2 else None, ex.image(np.random.RandomState(100 + k)), {})])
            self.imgs.append((ex, b))
        self.refs = []
        st, val = fork_call(self._references)
        self.refs = val if st == "ok" else [None] * NIMG
        self.referr = None if st == "ok" else val

    def _references(self):
        out = []
        root = os.path.join(self.base, "ref")
        os.makedirs(root)
        w = new_world(root, {"seed": 12345})
        w.use_data(self.inst.datadir)
        w.install()
        try:
            for k in range(NIMG):
                p = w.new_process("ref%d" % k)
                path = w.put(w.path("work", "ref%d.fits" % k), self.imgs[k][1])
                o = w.path("work", "ref%d.csv" % k)

                def f():
                    from desimeter.processfvc import get_parser, fvc_proc
                    from desimeter.log import get_logger
                    from astropy.table import Table
                    a = get_parser().parse_args(["-i", path, "-o", o])
                    e = fvc_proc(a, get_logger())
                    return table_dict(Table.read(o)) if e == 0 else None
                st, v = w.call(p, f)
                out.append(v if st == "ok" else None)
        finally:
            w.uninstall()
        return out

    # ------------------------------------------------------------------
    def gen(self, seed, tier):
        r = random.Random("p01gen/%d" % seed)
        cfg = r.choice(["plain", "fault", "fault", "fault", "conc", "conc", "concfault", "sub"])
        dirs = r.sample(["night1", "night2", "sim run", "x.csv.d", "fits.fits.d"], r.randint(1, 3))
        nimg = r.randint(1, 3)
        names = ["fvc-%08d.fits" % r.randrange(3) for _ in range(nimg)]
        if r.random() < 0.3:
            names[0] = names[0] + ".fz"
        imgs = []
        vers = r.sample(range(NIMG), NIMG)
        for k in range(nimg):
            path = os.path.join(r.choice(dirs), names[k])
            if path in [i["path"] for i in imgs]:
                continue
            imgs.append({"path": path, "ver": vers.pop()})
        if r.random() < 0.5 and len(imgs) == 1:
            d2 = [d for d in dirs if d != os.path.dirname(imgs[0]["path"])]
            if d2:
                imgs.append({"path": os.path.join(d2[0], os.path.basename(imgs[0]["path"])),
                             "ver": vers.pop()})
        steps = []
        par = cfg.startswith("conc")
        n = r.randint(2, 5)
        subp = {"plain": 0.2, "fault": 0.35, "conc": 0.25, "concfault": 0.25, "sub": 0.8}[cfg]

        def call():
            return {"op": "call", "img": r.randrange(len(imgs)), "ow": r.random() < 0.35,
                    "sub": r.random() < subp, "proc": r.randrange(2)}
        for k in range(n):
            x = r.random()
            if par and (k == 0 or x < 0.3):
                same = r.random() < 0.7
                i0 = r.randrange(len(imgs))
                cs = []
                for j in range(r.randint(2, 3)):
                    c = call()
                    c["proc"] = j
                    if same:
                        c["img"] = i0
                    cs.append(c)
                steps.append({"op": "par", "calls": cs})
            elif x < 0.2 and vers:
                steps.append({"op": "replace", "img": r.randrange(len(imgs)), "ver": vers.pop(),
                              "date": r.choice(["now", "now", "old", "same", "future"])})
            elif x < 0.27:
                steps.append({"op": "restart", "proc": r.randrange(2)})
            else:
                steps.append(call())
        faults = []
        if "fault" in cfg or (cfg == "sub" and r.random() < 0.6):
            for _ in range(r.choice([1, 1, 2, 3])):
                k = r.choice(["crash", "torn", "torn", "enospc", "eio", "crash", "short", "emfile"])
                ops = {"torn": ["write"], "short": ["write"],
                       "enospc": r.choice([["write"], ["open_w", "write", "rename"]]),
                       "eio": r.choice([["write"], ["open_r"], ["write", "rename", "open_w"]]),
                       "emfile": ["open_r", "open_w"],
                       "crash": r.choice([["write", "open_w", "rename"], ["rename"], ["write"],
                                          ["open_r"], ["open_w"], ["unlink", "rename"]])}[k]
                faults.append({"kind": k, "at": r.randrange(r.choice([1, 3, 12])), "ops": ops,
                               "frac": round(r.random(), 3)})
        return {"seed": seed, "config": cfg, "imgs": imgs, "steps": steps, "faults": faults,
                "bufsize": r.choice([512, 2048, 4096, 8192, 8192]),
                "sched": {"seed": seed, "p": 0, "p_io": r.choice([0.2, 0.5, 0.8])},
                "_lists": ["steps", "faults"]}

    # ------------------------------------------------------------------
    def run(self, plan, root, keep_log=0):
        v = Viol()
        w = new_world(root, plan, keep_log)
        w.use_data(self.inst.datadir)
        w.programs["desi_fvc_proc"] = _desi_fvc_proc
        procs = {}
        hist = {}          # img -> versions that have been processed or could be cached
        cur = {}
        schedule = []
        switches = [0]
        stats = {"ok": 0}
        w.install()
        patch_locks(w)
        try:
            imgs = []
            for k, im in enumerate(plan["imgs"]):
                path = w.put(w.path("work", im["path"]), self.imgs[im["ver"]][1])
                imgs.append(path)
                cur[k] = im["ver"]
                hist[k] = set()

            def proc(n):
                p = procs.get(n)
                if p is None or p.dead:
                    p = procs[n] = w.new_process("p%d" % n)
                return p

            def body(c):
                from desimeter.processfvc import process_fvc
                t = process_fvc(imgs[c["img"]], overwrite=c["ow"], use_subprocess=c["sub"])
                return None if t is None else table_dict(t)

            def judge(c, res, faulted, where):
                st, val = res
                k = c["img"]
                allowed = {cur[k]} | (set() if c["ow"] else hist[k])
                tag = "%s%s" % ("sub" if c["sub"] else "inproc", "-overwrite" if c["ow"] else "")
                w.state(tag, bool(hist[k]), sorted(w.fired), st, val is None)
                w.log("res", k, tag, st, type(val).__name__)
                if not c["ow"] and hist[k]:
                    w.probe("cache_hit_possible")
                hist[k].add(cur[k])
                if st == "ok" and val is not None:
                    w.probe("call_ok")
                    stats["ok"] += 1
                    why = None
                    for ver in sorted(allowed):
                        ex = self.imgs[ver][0]
                        e = truth_check(val, ex)
                        if e is None and self.refs[ver] is not None:
                            e = same_table(val, self.refs[ver], tol=0.05)
                        if e is None:
                            why = None
                            break
                        why = e if ver == cur[k] or why is None else why
                    if why is None and where != "concurrent":
                        hist[k] = {ver}     # this table is now the processed one
                    if why is not None:
                        for ver in range(NIMG):
                            if ver not in allowed and truth_check(val, self.imgs[ver][0]) is None:
                                stale = any(ver == i["ver"] for j, i in enumerate(plan["imgs"]) if j != k)
                                v.add("wrong-image" if stale else "stale-content",
                                      "%s call for %s returned the spots of another image (%s)" % (
                                          tag, plan["imgs"][k]["path"], where))
                                return
                        v.add("wrong-table", "%s call for %s: %s (%s)" % (
                            tag, plan["imgs"][k]["path"], why, where))
                    return
                if not faulted:
                    w.probe("call_failed_unfaulted")
                    v.add("spurious-failure" if where != "recovery" else "no-recovery",
                          "%s call for %s failed without a fault (%s): %s %s" % (
                              tag, plan["imgs"][k]["path"], where, st,
                              read_exc(val) if st == "exc" else val))

            def nfired():
                return sum(w.fired.values())

            for step in plan["steps"]:
                if v:
                    break
                if step["op"] == "call":
                    if step["img"] >= len(imgs):
                        continue
                    f0 = nfired()
                    res = w.call(proc(step["proc"]), body, step)
                    judge(step, res, nfired() > f0, "sequential")
                elif step["op"] == "replace":
                    if step["img"] >= len(imgs):
                        continue
                    w.tick(60)
                    path = imgs[step["img"]]        # copied with any date (rsync, cp -p)
                    date = {"now": w.now, "old": w.t0 - 86400, "same": os.path.getmtime(path),
                            "future": w.now + 3600}[step.get("date", "now")]
                    w.put(path, self.imgs[step["ver"]][1], mtime=date)
                    w.probe("replaced_" + step.get("date", "now"))
                    cur[step["img"]] = step["ver"]
                elif step["op"] == "restart":
                    procs.pop(step["proc"], None)
                elif step["op"] == "par":
                    f0 = nfired()
                    sch = Scheduler(w, plan["sched"])
                    w.sched = sch
                    ts = []
                    for c in step["calls"]:
                        if c["img"] >= len(imgs):
                            continue
                        p = proc(c["proc"])
                        ts.append((c, sch.spawn("t%d" % c["proc"], p, lambda c=c: body(c))))
                    w.probe("par_phase")
                    sch.run()
                    switches[0] += len(sch.switches)
                    if sch.deadlock:
                        v.add("deadlock", "concurrent calls never finish")
                        break
                    for c, t in ts:
                        judge(c, t.result, nfired() > f0, "concurrent")
            # after the faults: fresh processes, everything must work
            if not v:
                w.clear_faults()
                procs.clear()
                for k in range(len(imgs)):
                    for ow in (False, True):
                        if v:
                            break
                        c = {"img": k, "ow": ow, "sub": False, "proc": 0}
                        judge(c, w.call(proc(0), body, c), False, "recovery")
            for k, path in enumerate(imgs):
                if w.durable(path) != self.imgs[cur[k]][1]:
                    v.add("input-modified", "process_fvc changed its input image")
        finally:
            w.uninstall()
        return outcome(w, v.items, nontrivial=stats["ok"] > 0, steps=switches[0])


PROP = P()
