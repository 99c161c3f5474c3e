"""Seed exploration, minimisation, replay and evidence."""
import argparse
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def scratch_base():
    for d in ("/dev/shm", "/var/tmp", "/run"):
        try:
            p = tempfile.mkdtemp(prefix="dsim-", dir=d)
            return p
        except OSError:
            continue
    raise RuntimeError("no scratch directory")


def norm(o):
    """JSON-able copy."""
    import numpy as np
    if isinstance(o, dict):
        return {str(k): norm(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [norm(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted(norm(v) for v in o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return norm(o.tolist())
    return o


def plan_key(plan):
    return hashlib.sha256(json.dumps(norm(plan), sort_keys=True).encode()).hexdigest()[:16]


class Child:
    """One simulated run in a forked, throw-away OS process."""

    def __init__(self, prop, plan, base, tag, keep_log=0):
        self.plan, self.tag = plan, tag
        self.t0 = time.time()
        r, w = os.pipe()
        self.root = os.path.join(base, "run-%s" % tag)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.makedirs(self.root, exist_ok=True)
                devnull = os.open("/dev/null", os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                if not os.environ.get("DSIM_DEBUG"):
                    os.dup2(devnull, 2)
                try:
                    out = prop.run(plan, self.root, keep_log)
                    out = norm(out)
                    data = json.dumps({"ok": out})
                except BaseException:
                    data = json.dumps({"err": traceback.format_exc()[-4000:]})
                data = data.encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                os.close(w)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self.fd = pid, r
        self.buf = b""

    def feed(self):
        d = os.read(self.fd, 1 << 16)
        if d:
            self.buf += d
            return False
        return True

    def finish(self):
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        shutil.rmtree(self.root, ignore_errors=True)
        self.wall = time.time() - self.t0
        try:
            d = json.loads(self.buf.decode())
        except Exception:
            return {"err": "run died, wait status %s" % st}
        return d

    def kill(self):
        for f in (os.killpg, os.kill):
            try:
                f(self.pid, signal.SIGKILL)
            except OSError:
                pass


def run_many(prop, jobs, base, ncpu, timeout, on_result, stop=None):
    """jobs: iterator of (tag, plan).  on_result(tag, plan, result)."""
    live = {}
    it = iter(jobs)
    exhausted = False
    while True:
        while not exhausted and len(live) < ncpu and not (stop and stop()):
            try:
                tag, plan = next(it)
            except StopIteration:
                exhausted = True
                break
            c = Child(prop, plan, base, tag)
            live[c.fd] = c
        if stop and stop():
            exhausted = True
        if not live:
            if exhausted:
                return
            continue
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            c = live[fd]
            if c.feed():
                del live[fd]
                on_result(c.tag, c.plan, c.finish(), c)
        now = time.time()
        for fd, c in list(live.items()):
            if now - c.t0 > timeout:
                c.kill()
                del live[fd]
                c.finish()
                on_result(c.tag, c.plan, {"err": "wall timeout after %ds" % timeout}, c)


def run_one(prop, plan, base, tag="one", timeout=300, keep_log=0):
    c = Child(prop, plan, base, tag, keep_log)
    end = time.time() + timeout
    while True:
        rd, _, _ = select.select([c.fd], [], [], 1.0)
        if rd and c.feed():
            return c.finish()
        if time.time() > end:
            c.kill()
            c.finish()
            return {"err": "wall timeout"}


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def sigs(res):
    return sorted({v["sig"] for v in res["violations"]})


def minimise(prop, plan, sig, base, budget_s=60, ncpu=8):
    """Greedy delta debugging on the plan, keeping violation `sig`."""
    end = time.time() + budget_s
    tries = 0
    best = plan
    res = run_one(prop, best, base, "min0")
    if "ok" not in res or sig not in sigs(res["ok"]):
        return plan, None, tries
    bestout = res["ok"]
    # pin the schedule that was actually executed
    if bestout.get("schedule") is not None:
        p2 = json.loads(json.dumps(norm(best)))
        p2.setdefault("sched", {})["schedule"] = bestout["schedule"]
        r2 = run_one(prop, p2, base, "min1")
        if "ok" in r2 and sig in sigs(r2["ok"]):
            best, bestout = p2, r2["ok"]
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = list(prop.shrink(json.loads(json.dumps(norm(best)))))
        cands += list(shrink_schedule(best))
        for lo in range(0, len(cands), ncpu):
            if time.time() > end:
                break
            batch = cands[lo:lo + ncpu]
            got = {}

            def on(tag, p, r, c):
                got[tag] = r
            run_many(prop, [("m%d" % i, p) for i, p in enumerate(batch)], base, ncpu,
                     max(10, min(120, end - time.time() + 5)), on)
            tries += len(batch)
            for i, p in enumerate(batch):
                r = got.get("m%d" % i)
                if r and "ok" in r and sig in sigs(r["ok"]):
                    best, bestout = p, r["ok"]
                    progress = True
                    break
            if progress:
                break
    return best, bestout, tries


def shrink_schedule(plan):
    s = plan.get("sched") or {}
    sch = s.get("schedule")
    if not sch:
        return
    n = len(sch)
    for size in (n // 2, n // 4, n // 8, 1):
        if size < 1:
            continue
        step = size
        k = 0
        for lo in range(0, n, step):
            p = json.loads(json.dumps(norm(plan)))
            p["sched"]["schedule"] = sch[:lo] + sch[lo + size:]
            yield p
            k += 1
            if k >= 16:
                break


def write_replay(prop, plan, sig, out, seed, d=None):
    d = d or os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.replay.json" % (prop.id, plan_key(plan)))
    v = [x for x in out["violations"] if x["sig"] == sig][0] if out else {}
    with open(path, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "plan": norm(plan), "sig": sig,
                   "detail": v.get("detail"), "digest": out.get("digest") if out else None,
                   "trace_tail": out.get("tail", []) if out else []}, f, indent=1, sort_keys=True)
    return path


def load_prop(pid):
    import importlib
    sys.path.insert(0, VERIF)
    m = importlib.import_module("props.%s" % pid.lower())
    return m.PROP


def env_setup():
    scratch = os.environ.get("DSIM_CFG")
    os.environ.setdefault("MPLBACKEND", "Agg")
    for k in ("DESIMETER_DATA", "DESI_LOGLEVEL", "PYTHONPATH"):
        os.environ.pop(k, None)
    os.environ["TZ"] = "UTC"


def survey(pid, tier, seed, runs, ncpu=None):
    """Developer aid: run seeds without stopping, list every signature."""
    env_setup()
    prop = load_prop(pid)
    base = scratch_base()
    os.environ["MPLCONFIGDIR"] = base
    cnt, first, errs, walls, probes, fired = {}, {}, [], [], {}, {}
    try:
        t0 = time.time()
        prop.setup(base)
        print("setup %.1fs" % (time.time() - t0))

        def on(tag, plan, res, c):
            walls.append(c.wall if hasattr(c, "wall") else 0)
            if "err" in res:
                errs.append((plan.get("seed"), res["err"]))
                return
            for v in res["ok"]["violations"]:
                cnt[v["sig"]] = cnt.get(v["sig"], 0) + 1
                first.setdefault(v["sig"], (plan["seed"], v["detail"]))
            for k, n in res["ok"]["probes"].items():
                probes[k] = probes.get(k, 0) + n
            for k, n in res["ok"]["fired"].items():
                fired[k] = fired.get(k, 0) + n
        run_many(prop, ((i, prop.gen(seed * 1000003 + i, tier)) for i in range(runs)), base,
                 ncpu or 8, 300, on)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print("runs %d in %.1fs; per-run mean %.2f max %.2f" % (runs, time.time() - t0,
                                                         sum(walls) / len(walls), max(walls)))
    print("fired", fired)
    print("probes", probes)
    for s in sorted(cnt):
        print("%4d %s  seed=%s %s" % (cnt[s], s, first[s][0], first[s][1][:600]))
    for s, e in errs[:3]:
        print("ERR seed", s, e)
    print("errors", len(errs))
    return 0


def check(pid, tier, seed, runs=None, cap=None, ncpu=None, quiet=False):
    t0 = time.time()
    env_setup()
    prop = load_prop(pid)
    base = scratch_base()
    os.environ["MPLCONFIGDIR"] = base
    try:
        return _check(prop, tier, seed, base, t0, runs, cap, ncpu)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _check(prop, tier, seed, base, t0, runs, cap, ncpu):
    conf = prop.tiers[tier]
    runs = runs or conf["runs"]
    cap = cap or conf["cap_s"]
    ncpu = ncpu or min(8, os.cpu_count() or 4)
    prop.setup(base)
    known = known_findings(prop.id)
    kn = {k["sig"]: k for k in known}
    agg = {"runs": 0, "fired": {}, "probes": {}, "states": set(), "plans": set(),
           "digests": set(), "configs": {}, "sim_s": 0.0, "steps": 0, "nontrivial": set(),
           "evals": 0}
    found = {}
    errs = []
    hit_known = {}
    samples = []
    results = {}
    tstart = time.time()

    def jobs():
        for i in range(runs):
            s = seed * 1000003 + i
            yield i, prop.gen(s, tier)

    def on(tag, plan, res, c):
        if "err" in res:
            errs.append((tag, plan, res["err"]))
            return
        out = res["ok"]
        agg["runs"] += 1
        agg["evals"] += out.get("evals", 1)
        for k in ("fired", "probes"):
            for n, v in out.get(k, {}).items():
                agg[k][n] = agg[k].get(n, 0) + v
        agg["states"].update(out.get("states", []))
        agg["configs"][plan.get("config", "-")] = agg["configs"].get(plan.get("config", "-"), 0) + 1
        agg["sim_s"] += out.get("sim_s", 0)
        agg["steps"] += out.get("steps", 0)
        agg["plans"].add(plan_key(plan))
        agg["digests"].add(out["digest"])
        if out.get("nontrivial", True):
            agg["nontrivial"].add(out["digest"])
        if len(samples) < 3 and out.get("nontrivial", True):
            samples.append({"seed": plan.get("seed"), "plan": norm(plan), "digest": out["digest"]})
        results[tag] = out["digest"]
        for v in out["violations"]:
            if v["sig"] in kn:
                hit_known.setdefault(v["sig"], v)
            else:
                found.setdefault(tag, (plan, v, out))

    def stop():
        return len(found) >= 6 or len(errs) >= 12 or time.time() - tstart > cap

    run_many(prop, jobs(), base, ncpu, conf.get("run_timeout", 150), on, stop)
    wall_search = time.time() - tstart

    # the simulator itself must be deterministic: re-run a few seeds
    redo = [t for t in sorted(results)][:3]
    nondet = []

    def on2(tag, plan, res, c):
        t = int(str(tag)[1:])
        if "ok" not in res or res["ok"]["digest"] != results[t]:
            nondet.append(t)
    if not found:
        run_many(prop, [("d%d" % t, prop.gen(seed * 1000003 + t, tier)) for t in redo],
                 base, ncpu, conf.get("run_timeout", 150), on2)

    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": prop.rule,
            "samples": [trim(s) for s in samples] or ["none"],
            "simulated_runs": agg["runs"],
            "distinct_plans": len(agg["plans"]),
            "distinct_executions": len(agg["digests"]),
            "runs_per_hour": int(agg["runs"] / max(wall_search, 1e-6) * 3600),
            "simulated_time_s": round(agg["sim_s"], 1),
            "scheduler_steps": agg["steps"],
            "runs_by_config": agg["configs"],
            "faults_injected": agg["fired"],
            "probes": agg["probes"],
            "distinct_states": len(agg["states"]),
            "state_measure": getattr(prop, "state_measure", "n/a"),
            "determinism_rechecks": len(redo),
            "determinism_mismatches": len(nondet),
            "known_findings_hit": sorted(hit_known),
            "real_components": prop.real,
            "stub_components": prop.stubs,
            "stopped_by": "cap" if time.time() - tstart > cap and agg["runs"] < runs else "runs",
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(found),
    }
    code = 0
    for k in known:
        if k["sig"] in hit_known or k.get("always", False):
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    if found:
        # smallest seed first, so the report does not depend on timing
        tag = sorted(found)[0]
        plan, v, out = found[tag]
        best, bout, tries = minimise(prop, plan, v["sig"], base,
                                     budget_s=conf.get("min_s", 45), ncpu=ncpu)
        path = write_replay(prop, best, v["sig"], bout or out, plan.get("seed"))
        print("violation: %s" % v["sig"])
        print("detail: %s" % str((bout or out)["violations"][0].get("detail"))[:1500])
        print("seed=%s runs=%d minimised in %d tries" % (plan.get("seed"), agg["runs"], tries))
        others = sorted({x[1]["sig"] for x in found.values()})
        print("violation signatures seen: %s" % ", ".join(others))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        code = 1
    elif errs:
        print("HARNESS-ERROR %s: %d run(s) failed in the harness" % (prop.id, len(errs)))
        for t, p, e in errs[:2]:
            print("seed=%s: %s" % (p.get("seed"), e))
        code = 3
    elif nondet:
        print("HARNESS-ERROR %s: non-deterministic runs %s" % (prop.id, nondet))
        code = 3
    elif agg["runs"] < conf.get("min_runs", 1):
        print("HARNESS-ERROR %s: only %d runs in %ds" % (prop.id, agg["runs"], cap))
        code = 3
    else:
        missing = [p for p in prop.must_probe if not (agg["probes"].get(p) or agg["fired"].get(p))]
        if missing and tier in ("quick", "thorough") and agg["runs"] >= runs:
            print("HARNESS-ERROR %s: probes never hit: %s" % (prop.id, missing))
            code = 3
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop.id), "w") as f:
        json.dump(norm(ev), f, indent=1, sort_keys=True)
    print("%s %s: %d runs (%d distinct executions) in %.0fs, faults %s, exit %d" % (
        prop.id, tier, agg["runs"], len(agg["digests"]), time.time() - t0, agg["fired"], code))
    return code


def trim(s, n=1500):
    t = json.dumps(norm(s), sort_keys=True)
    return s if len(t) <= n else {"seed": s.get("seed"), "digest": s.get("digest"), "plan_json": t[:n] + "..."}


def replay(path):
    env_setup()
    d = json.load(open(path))
    prop = load_prop(d["property"])
    base = scratch_base()
    os.environ["MPLCONFIGDIR"] = base
    try:
        prop.setup(base)
        res = run_one(prop, d["plan"], base, "replay", keep_log=400)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if "ok" not in res:
        print("HARNESS-ERROR", res["err"])
        return 3
    out = res["ok"]
    print("digest", out["digest"], "recorded", d.get("digest"),
          "same" if out["digest"] == d.get("digest") else "DIFFERENT")
    for v in out["violations"]:
        print("violation:", v["sig"], "-", str(v["detail"])[:2000])
    if os.environ.get("DSIM_TRACE"):
        for line in out.get("tail", []):
            print("  ", line)
    hit = d["sig"] in sigs(out)
    print("reproduced" if hit else "not reproduced")
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1 if hit else 0


class Prop:
    id = None
    level = "exploration"
    rule = ""
    state_measure = "n/a"
    real = []
    stubs = []
    assumptions = []
    must_probe = []
    tiers = {"quick": {"runs": 100, "cap_s": 100}, "thorough": {"runs": 3000, "cap_s": 3000}}

    def setup(self, base):
        pass

    def gen(self, seed, tier):
        raise NotImplementedError

    def run(self, plan, root, keep_log=0):
        raise NotImplementedError

    def shrink(self, plan):
        """Generic: drop one element of each list named in plan['_lists']."""
        for name in plan.get("_lists", []):
            lst = plan.get(name, [])
            n = len(lst)
            sizes = [s for s in (n // 2, n // 4, 1) if s >= 1]
            seen = set()
            for size in sizes:
                for lo in range(0, n, size):
                    if (lo, size) in seen:
                        continue
                    seen.add((lo, size))
                    p = json.loads(json.dumps(plan))
                    p[name] = lst[:lo] + lst[lo + size:]
                    yield p
        for name, val in plan.get("_simpler", {}).items():
            if plan.get(name) != val:
                p = json.loads(json.dumps(plan))
                p[name] = val
                yield p


def outcome(world, violations, **kw):
    o = {"violations": violations, "digest": world.digest(), "fired": world.fired,
         "probes": world.probes, "states": sorted(world.states),
         "sim_s": max(0.0, world.now - world.t0), "tail": world.tail[-400:]}
    o.update(kw)
    return o


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--ncpu", type=int)
    ap.add_argument("--survey", action="store_true")
    a = ap.parse_args()
    if a.survey:
        return survey(a.property, a.tier, a.seed, a.runs or 60, a.ncpu)
    return check(a.property, a.tier, a.seed, a.runs, a.cap, a.ncpu)
