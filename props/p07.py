"""P07  fit_posparams: the calibration of a positioner does not depend on what else is fit."""
import io
import os
import random

import numpy as np

from dsim import fleet
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder, table_dict


def load_fit(b):
    """A result file as {column: list} without the analysis dates; None when unreadable."""
    from astropy.table import Table
    if b is None:
        return None
    try:
        t = Table.read(b.decode(), format="ascii.csv")
    except Exception:
        return None
    return {k: v for k, v in table_dict(t).items() if not k.startswith("ANALYSIS_DATE")}


def diff(a, b, tol=1e-7):
    """Text of the first difference between two results, or None."""
    if a is None or b is None:
        return None if a is b else "one has no result (%s)" % ("first" if a is None else "second")
    if set(a) != set(b):
        return "columns differ: %s" % sorted(set(a) ^ set(b))[:6]
    for c in a:
        if len(a[c]) != len(b[c]):
            return "%d rows and %d rows" % (len(a[c]), len(b[c]))
        for x, y in zip(a[c], b[c]):
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if not (x == y or abs(x - y) <= tol * max(1, abs(y)) or (x != x and y != y)):
                    return "%s is %r and %r" % (c, x, y)
            elif x != y:
                return "%s is %r and %r" % (c, x, y)
    return None


def run_fit(w, proc, files, outdir, opts):
    return w.run_script(proc, "fit_posparams", ["-i"] + files + ["-o", outdir] + opts)


class P(Prop):
    id = "P07"
    rule = ("one case = one seeded batch of simulated positioners fit by fit_posparams with several worker counts, task "
            "orders and process histories, each compared with a fit alone in a new process; non-trivial = a result was compared")
    state_measure = "(entry point, workers, tasks done by the worker before, sequence layout of this and of the previous positioner)"
    real = ["posparams.fithandler", "posparams.fitter", "bin/fit_posparams", "ptl2fp", "pos2ptl"]
    stubs = ["process pool (seeded assignment and completion order)", "positioners and FVC measurements", "clock"]
    assumptions = ["a worker process starts with freshly imported modules"]
    must_probe = ["pool_tasks", "compared", "serial", "api", "drift", "two_digit_sequences"]
    tiers = {"quick": {"runs": 200, "cap_s": 75, "run_timeout": 200, "min_s": 60},
             "thorough": {"runs": 4000, "cap_s": 2400, "run_timeout": 300, "min_s": 120}}

    def setup(self, base):
        install_finder()
        fleet.site(0, 0)
        for n in ("astropy.table", "scipy.optimize", "astropy.time"):
            __import__(n)

    def gen(self, seed, tier):
        r = random.Random("p07gen/%d" % seed)
        n = r.randint(2, 4)
        pos = [fleet.spec(r, k, many=0.2) for k in range(n)]
        for p in pos:
            if r.random() < 0.15:
                p["stuck"] = "theta"
            elif r.random() < 0.15:
                p["outliers"] = r.randint(1, 2)
        opts = []
        if r.random() < 0.3:
            opts += ["--outlier-rejection"]
        if r.random() < 0.2:
            opts += ["--force-recent-rehome"]
        if r.random() < 0.3:
            opts += ["-pd", "1", "-dw", str(r.choice([8, 15]))]
        if r.random() < 0.3:
            opts += ["-v"]
        runs = []
        for _ in range(r.choice([1, 2, 2, 3])):
            order = list(range(n))
            r.shuffle(order)
            kind = r.choice(["script", "script", "script", "api"])
            runs.append({"kind": kind, "order": order, "np": r.choice([1, 1, 2, 3, None]),
                         "pool": {"seed": r.randrange(1 << 20), "eager": r.choice([0, 0.3, 1]), "cpu_count": r.randint(1, 4)},
                         "direct": [r.randrange(n) for _ in range(r.randint(0, 1))], "same_out": r.random() < 0.3})
        return {"seed": seed, "pos": pos, "opts": opts, "runs": runs, "_lists": ["runs", "pos"]}

    def run(self, plan, root, keep_log=0):
        v = Viol()
        w = new_world(root, plan, keep_log)
        w.install()
        ncmp = 0
        try:
            files, pos = {}, plan["pos"]
            for k, sp in enumerate(pos):
                p, rows = fleet.build(sp)
                files[k] = w.put(w.path("work", "in", sp["posid"] + ".csv"), fleet.table_bytes(sp, rows))
                if any(not s["rehome"] for s in sp["seqs"]):
                    w.probe("drift")
                if len(sp["seqs"]) > 10:
                    w.probe("two_digit_sequences")
            ids = [sp["posid"] for sp in pos]
            ref = {}

            def result(outdir, k):
                return load_fit(w.durable(w.path("work", outdir, ids[k] + "_paramfits.csv")))

            def alone(k):
                if k not in ref:
                    d = "alone%d" % k
                    w.pool_plan = {"seed": 1, "eager": 0, "cpu_count": 1}
                    st, val = run_fit(w, w.new_process("alone%d" % k), [files[k]], d, plan["opts"] + ["-np", "1"])
                    ref[k] = (result(d, k), st, val)
                return ref[k][0]

            def kw(k, outdir):
                o = plan["opts"]
                return dict(posid=ids[k], path=files[k], period_days=int(o[o.index("-pd") + 1]) if "-pd" in o else 1000000,
                            data_window=int(o[o.index("-dw") + 1]) if "-dw" in o else 1000000, savedir=outdir,
                            static_quantile=0.05, outlier_rejection="--outlier-rejection" in o,
                            force_recent_rehome="--force-recent-rehome" in o)

            def direct(k):
                # a user calls the fitter itself with its default arguments
                from desimeter.posparams import fitter
                rows = [x for x in fleet.build(pos[k])[1] if not x["_drop"]]
                from dref import ptl2fp
                xyz = ptl2fp.fp2ptl(pos[k]["petal"], np.array([x["X_FP"] for x in rows]), np.array([x["Y_FP"] for x in rows]))
                e = sorted({x["EXPOSURE_ID"] for x in rows})
                return fitter.fit_params([x["POS_T"] for x in rows], [x["POS_P"] for x in rows], list(map(float, xyz[0])),
                                         list(map(float, xyz[1])), [1.0] * len(rows), [1.0] * len(rows),
                                         [bool(x["RECENT_REHOME"]) for x in rows], [e.index(x["EXPOSURE_ID"]) for x in rows])

            for nr, run in enumerate(plan["runs"]):
                if v:
                    break
                order = [k for k in run["order"] if k < len(pos)]
                outdir = "out" if run["same_out"] else "out%d" % nr
                proc = w.new_process("fit%d" % nr)
                w.pool_plan = dict(run["pool"])
                if run["kind"] == "script":
                    opts = list(plan["opts"]) + (["-np", str(run["np"])] if run["np"] else [])
                    st, val = run_fit(w, proc, [files[k] for k in order], outdir, opts)
                    how = "fit_posparams -np %s" % run["np"]
                    if run["np"] == 1:
                        w.probe("serial")
                    if st == "exc":
                        v.add("script-failed", "%s: %s" % (how, read_exc(val)))
                        break
                else:
                    w.probe("api")
                    os.makedirs(w.path("work", outdir), exist_ok=True)
                    how = "run_best_fits after other fits"

                    def body():
                        from desimeter.posparams import fithandler
                        for k in run["direct"]:
                            if k < len(pos):
                                try:
                                    direct(k)
                                except Exception as e:
                                    w.log("direct", type(e).__name__)
                        for k in order:
                            try:
                                fithandler.run_best_fits(printf=lambda *a, **q: None, **kw(k, w.path("work", outdir)))
                            except Exception as e:
                                w.log("api", k, type(e).__name__)
                    w.call(proc, body)
                for n, k in enumerate(order):
                    got, want = result(outdir, k), alone(k)
                    if want is not None:
                        ncmp += 1
                        w.probe("compared")
                    sig = lambda j: "".join("r" if s["rehome"] else "d" for s in pos[j]["seqs"])
                    w.state(run["kind"], run["np"], n, sig(k), sig(order[n - 1]) if n else "")
                    d = diff(got, want)
                    if d:
                        v.add("depends-on-history", "%s in %s (%s, position %d of %d): %s; alone in a new process: second" % (
                            ids[k], how, "+".join(plan["opts"]), n, len(order), d))
                        break
                    if want is None:
                        # the same file alone fails: nothing to compare, but a plain positioner must be fit
                        v.add("not-fit", "%s alone is not fit: %s %s" % (ids[k], ref[k][1], w.stdout.getvalue()[-200:]))
            for k in files:
                if w.durable(files[k]) != fleet.table_bytes(pos[k], fleet.build(pos[k])[1]):
                    v.add("input-modified", "the input file of %s changed" % ids[k])
        finally:
            w.uninstall()
        w.log("end", ncmp, len(v.items))
        return outcome(w, v.items, nontrivial=ncmp > 0, steps=len(plan["runs"]), evals=ncmp)


PROP = P()
