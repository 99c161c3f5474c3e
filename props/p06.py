"""P06  get_logger: every message once on the console and in each requested file."""
import os
import random
import re

from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder, Scheduler, patch_locks
from dsim.world import PYDIR

SEV = {"DEBUG": 10, "INFO": 20, "WARN": 30, "WARNING": 30, "ERROR": 40, "FATAL": 50, "CRITICAL": 50}
LINE = re.compile(r"^(\d{8}T\d{6}[+-]\d{4}:)?(DEBUG|INFO|WARNING|ERROR|CRITICAL):([^:]*):(\d+):([^:]*):(.*)$")
NAME = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}


class P(Prop):
    id = "P06"
    rule = ("one case = one seeded history of get_logger calls and messages in one or two processes, from sequential "
            "code and concurrent threads, with failing log files and process deaths; non-trivial = messages delivered")
    state_measure = "(operation, level, path already open or not, concurrency, faults fired, outcome)"
    real = ["log", "python logging"]
    stubs = ["console", "thread scheduler", "clock", "file system faults", "process deaths"]
    assumptions = ["the console can be written", "an appended write reaches the file at once (no power loss)"]
    must_probe = ["delivered_console", "delivered_file", "filtered", "threads", "late_path", "timestamps", "enospc",
                  "crash", "open_failed"]
    tiers = {"quick": {"runs": 1500, "cap_s": 50, "run_timeout": 60, "min_s": 40},
             "thorough": {"runs": 60000, "cap_s": 1500, "run_timeout": 60, "min_s": 120}}

    def setup(self, base):
        install_finder()

    def gen(self, seed, tier):
        r = random.Random("p06gen/%d" % seed)
        cfg = r.choice(["seq", "threads", "threads", "fault", "threadfault"])
        nproc = r.choice([1, 1, 2])
        paths = ["a.log", "sub/b.log", "./a.log", "c d.log"][:r.randint(1, 4)]
        levels = r.sample([None, None, "DEBUG", "INFO", "WARN", "WARNING", "ERROR", "FATAL", "CRITICAL"], r.randint(1, 4))
        env = [r.choice([None, None, "DEBUG", "warning", "Error", "INFO", "critical"]) for _ in range(nproc)]
        mid = [0]

        def ops(n):
            out = []
            for _ in range(n):
                x = r.random()
                if x < 0.4:
                    out.append({"op": "get", "level": r.choice(levels),
                                "path": r.choice(paths) if r.random() < 0.5 else None, "ts": r.random() < 0.2})
                elif x < 0.45:
                    out.append({"op": "bad"})
                elif x < 0.52:
                    out.append({"op": "module"})
                else:
                    mid[0] += 1
                    out.append({"op": "msg", "sev": r.choice(["debug", "info", "warning", "error", "critical"]),
                                "id": mid[0]})
            return out
        steps = []
        for _ in range(r.randint(1, 4)):
            if "thread" in cfg and r.random() < 0.7:
                steps.append({"par": [{"proc": r.randrange(nproc) if r.random() < 0.3 else 0, "ops": ops(r.randint(2, 5))}
                                      for _ in range(r.randint(2, 3))]})
            else:
                steps.append({"par": [{"proc": r.randrange(nproc), "ops": ops(r.randint(2, 7))}]})
        faults = []
        if "fault" in cfg:
            for _ in range(r.randint(1, 3)):
                k = r.choice(["enospc", "eio", "emfile", "crash", "short", "torn"])
                f = {"kind": k, "at": r.randrange(r.choice([2, 8])), "frac": round(r.random(), 3),
                     "ops": {"emfile": ["open_w"], "crash": ["write", "open_w"], "torn": ["write"], "short": ["write"]}
                     .get(k, ["write", "open_w"]), "once": True}
                faults.append(f)
        return {"seed": seed, "config": cfg, "steps": steps, "faults": faults, "env": env,
                "sched": {"seed": seed, "p": r.choice([0.05, 0.2, 0.5]), "p_io": r.choice([0.3, 0.7])},
                "_lists": ["steps", "faults"]}

    def run(self, plan, root, keep_log=0):
        v = Viol()
        w = new_world(root, plan, keep_log)
        w.install()
        patch_locks(w)
        w.tick(random.Random(plan["seed"]).random() * 1e7)
        os.makedirs(w.path("work", "sub"), exist_ok=True)
        procs, seq = {}, [0]
        msgs, gets = [], []
        nsw = 0
        try:
            def proc(n):
                if n not in procs or procs[n].dead:
                    procs[n] = w.new_process("p%d" % n)
                    if plan["env"][n]:
                        procs[n].environ["DESI_LOGLEVEL"] = plan["env"][n]
                return procs[n]

            def tick():
                seq[0] += 1
                return seq[0]

            def body(th, ops, p, nproc):
                from desimeter.log import get_logger
                lg = None
                for o in ops:
                    if o["op"] == "get" or (o["op"] == "msg" and lg is None) or o["op"] == "module":
                        g = o if o["op"] == "get" else {"level": None, "path": None, "ts": False}
                        name = g["level"] or (plan["env"][nproc] or "INFO").upper()
                        rec = {"proc": p.pid, "name": name, "path": os.path.normpath(g["path"]) if g["path"] else None,
                               "t0": tick(), "t1": None, "ts": g["ts"], "thread": th}
                        gets.append(rec)
                        f0 = sum(w.fired.values())
                        kw = {}
                        if g["level"]:
                            kw["level"] = g["level"]
                        if g["path"]:
                            kw["path"] = g["path"]
                        if g["ts"]:
                            kw["timestamps"] = True
                        try:
                            lg, lname = get_logger(**kw), name
                        except OSError as e:
                            w.probe("open_failed")
                            if sum(w.fired.values()) == f0 or not g["path"]:
                                v.add("get-logger-failed", "get_logger(%s) raised %s" % (kw, read_exc(e)))
                            rec["failed"] = True
                            continue
                        except Exception as e:
                            v.add("get-logger-failed", "get_logger(%s) raised %s" % (kw, read_exc(e)))
                            return
                        finally:
                            rec["t1"] = tick()
                        if g["ts"]:
                            w.probe("timestamps")
                    if o["op"] == "bad":
                        try:
                            get_logger(level="LOUD")
                            v.add("bad-level", "get_logger accepted the level LOUD")
                        except ValueError:
                            pass
                    if o["op"] == "msg":
                        text = "message <%d> of the history" % o["id"]
                        rec = {"id": o["id"], "proc": p.pid, "name": lname, "sev": o["sev"], "t0": tick(), "t1": None,
                               "thread": th, "f0": sum(w.fired.values()), "now": w.now}
                        msgs.append(rec)
                        try:
                            getattr(lg, o["sev"])(text)
                        except Exception as e:
                            v.add("message-raised", "log.%s raised %s" % (o["sev"], read_exc(e)))
                        rec["t1"] = None if p.dead else tick()
                        rec["f1"] = sum(w.fired.values())
            for ns, step in enumerate(plan["steps"]):
                if v:
                    break
                th = [(ns * 10 + j, t) for j, t in enumerate(step["par"])]
                if len(th) == 1:
                    p = proc(th[0][1]["proc"])
                    st, val = w.call(p, body, th[0][0], th[0][1]["ops"], p, th[0][1]["proc"])
                    if st == "exc":
                        v.add("call-failed", read_exc(val))
                    continue
                w.probe("threads")
                sch = Scheduler(w, plan["sched"], trace_prefixes=(os.path.join(PYDIR, "desimeter", "log.py"),))
                w.sched = sch
                ts = []
                for k, t in th:
                    p = proc(t["proc"])
                    ts.append(sch.spawn("t%d" % k, p, lambda k=k, t=t, p=p: body(k, t["ops"], p, t["proc"])))
                sch.run()
                nsw += len(sch.switches)
                if sch.deadlock:
                    v.add("deadlock", "threads which log never finish")
                    break
                for t in ts:
                    if t.result[0] == "exc":
                        v.add("call-failed", read_exc(t.result[1]))
            files = {}
            for g in gets:
                if g["path"]:
                    b = w.durable(os.path.join(w.cwd, g["path"]))
                    files[g["path"]] = (b or b"").decode("utf-8", "replace")
            console = w.stdout.getvalue()
        finally:
            w.uninstall()
        if not v:
            self.judge(w, v, plan, msgs, gets, files, console)
        w.log("end", len(msgs), len(v.items))
        return outcome(w, v.items, nontrivial=len(msgs) > 0, steps=nsw, evals=len(msgs))

    @staticmethod
    def judge(w, v, plan, msgs, gets, files, console):
        def parse(text):
            at = {}
            for k, ln in enumerate(text.split("\n")):
                m = LINE.match(ln)
                x = re.match(r"^message <(\d+)> of the history$", m.group(6)) if m else None
                if x:
                    at.setdefault(int(x.group(1)), []).append((k, m))
            return at
        con = parse(console)
        fil = {p: parse(t) for p, t in files.items()}
        anyf = sum(w.fired.values()) > 0

        def check(where, got, want, m, loose):
            n = len(got)
            if n > 1:
                v.add("repeated", "message %d (%s, logger %s) is %d times %s" % (m["id"], m["sev"], m["name"], n, where))
            elif n == 0 and want == 1 and not loose:
                v.add("lost", "message %d (%s, logger %s) is missing %s" % (m["id"], m["sev"], m["name"], where))
            elif n == 1 and want == 0:
                v.add("unwanted", "message %d (%s, logger %s) should not be %s" % (m["id"], m["sev"], m["name"], where))
            if n == 1:
                lv = got[0][1].group(2)
                if lv != NAME[SEV[m["sev"].upper()]]:
                    v.add("wrong-level", "message %d of severity %s is written as %s" % (m["id"], m["sev"], lv))
                if not got[0][1].group(3).endswith(".py") or got[0][1].group(5) != "body":
                    v.add("wrong-origin", "message %d is attributed to %s %s" % (m["id"], got[0][1].group(3), got[0][1].group(5)))
        for m in msgs:
            want = 1 if SEV[m["sev"].upper()] >= SEV[m["name"]] else 0
            dead = m["t1"] is None                    # the process died inside this call
            w.probe("delivered_console" if want else "filtered")
            w.state(m["sev"], m["name"], want, anyf)
            check("on the console", con.get(m["id"], []), want, m, dead)
            faulted = dead or m["f1"] > m["f0"]
            for path in files:
                mine = [g for g in gets if g["path"] == path and g["proc"] == m["proc"] and g["name"] == m["name"]]
                before = [g for g in mine if g["t1"] is not None and g["t1"] < m["t0"] and not g.get("failed")]
                maybe = [g for g in mine if g["t0"] < (m["t1"] or 1e9)]
                got = fil[path].get(m["id"], [])
                if before:
                    if want:
                        w.probe("delivered_file")
                    # a failed write may lose the message it failed on (and what a full disk holds back)
                    check("in %s" % path, got, want, m, faulted or bool(w.fired.get("torn") or (w.fired.get("short") and len(w.fired) > 1)))
                elif not maybe:
                    check("in %s" % path, got, 0, m, True)
                    w.probe("not_in_file")
                else:
                    check("in %s" % path, got, want, m, True)
                if before and any(g["name"] == m["name"] and g["proc"] == m["proc"] and not g["path"] and
                                  g["t0"] < before[0]["t0"] for g in gets):
                    w.probe("late_path")
            # requested time stamps
            g = [g for g in gets if g["ts"] and g["proc"] == m["proc"] and g["name"] == m["name"] and not g.get("failed") and
                 g["t1"] is not None and g["t1"] < m["t0"]]
            for where, got in [("console", con.get(m["id"], []))] + [(p, fil[p].get(m["id"], [])) for p in files]:
                if g and len(got) == 1 and (where == "console" or any(x["path"] == where for x in g)):
                    ts = got[0][1].group(1)
                    if not ts and where != "console":
                        v.add("no-timestamp", "message %d has no time stamp in %s" % (m["id"], where))
                    elif ts:
                        import calendar
                        import time
                        t = calendar.timegm(time.strptime(ts[:15], "%Y%m%dT%H%M%S"))
                        if abs(t - m["now"]) > 30:
                            v.add("wrong-timestamp", "message %d has the time stamp %s" % (m["id"], ts))
        # order within a thread
        for where, at in [("the console", con)] + [(p, a) for p, a in fil.items()]:
            for th in {m["thread"] for m in msgs}:
                ks = [at[m["id"]][0][0] for m in msgs if m["thread"] == th and m["id"] in at]
                if ks != sorted(ks):
                    v.add("order", "messages of one thread are out of order in %s" % where)


PROP = P()
