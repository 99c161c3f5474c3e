"""Simulated fibre positioners: true kinematics, move histories, hardware faults.

Positions follow the frozen reference transforms in dref/; the tables have the
columns of get_posmoves.
"""
import datetime
import random

import numpy as np

T0 = datetime.datetime(2020, 11, 20, 3, 0, 0)


class Positioner:
    """True calibration of one positioner."""

    def __init__(self, rng, posid, petal_loc, device_loc, petal_id, x0, y0):
        self.posid, self.petal_loc, self.device_loc, self.petal_id = posid, petal_loc, device_loc, petal_id
        self.r1 = rng.uniform(2.92, 3.08)
        self.r2 = rng.uniform(2.92, 3.08)
        self.ot = rng.uniform(-170, 170)
        self.op = rng.uniform(-12, 12)
        self.ox, self.oy = x0 + rng.uniform(-0.1, 0.1), y0 + rng.uniform(-0.1, 0.1)

    def fp(self, t, p):
        """Focal plane position for the true (t, p) internal angles."""
        from dref import pos2ptl, ptl2fp
        x, y = pos2ptl.int2ptl(np.atleast_1d(np.asarray(t, float)), np.atleast_1d(np.asarray(p, float)),
                               self.r1, self.r2, self.ot, self.op, self.ox, self.oy)
        xyz = ptl2fp.ptl2fp(self.petal_loc, x, y)
        return np.array(xyz[0]), np.array(xyz[1])


def arc_targets(rng, nt, npp, t_hold=None, p_hold=None):
    """Commanded angles of a theta arc followed by a phi arc."""
    p_hold = rng.choice([120., 130., 140.]) if p_hold is None else p_hold
    t0, t1 = rng.uniform(-165, -60), rng.uniform(60, 165)
    t_hold = rng.uniform(-90, 90) if t_hold is None else t_hold
    p0, p1 = rng.uniform(90, 105), rng.uniform(140, 150)
    out = [(round(a, 4), round(p_hold, 4)) for a in np.linspace(t0, t1, nt)]
    out += [(round(t_hold, 4), round(a, 4)) for a in np.linspace(p0, p1, npp)]
    return out


def grid_targets(rng, n):
    return [(round(rng.uniform(-170, 170), 4), round(rng.uniform(80, 150), 4)) for _ in range(n)]


def history(pos, rng, seqs, noise=0.003, days=0.2, gear=(1.0, 1.0), stuck=None, disabled=0.0, idle=0.0,
            outliers=0, first_exp=1000, order="time", notes=False, extra=True):
    """Rows of the move table.  seqs: list of dict(kind, n, rehome, eps)."""
    rows = []
    nmove, sec, exp = rng.randrange(1000, 5000), 0.0, first_exp
    total = sum(s["n"] for s in seqs)
    dt = days * 86400.0 / max(1, total)
    true_rows = []
    hold = None
    for s in seqs:
        eps = (0.0, 0.0) if s["rehome"] else s["eps"]
        if s["kind"] == "arc":
            tg = arc_targets(rng, s["n"] - s["n"] // 2, s["n"] // 2)
        else:
            tg = grid_targets(rng, s["n"])
        for it, (t, p) in enumerate(tg):
            sec += dt * rng.uniform(0.9, 1.1)
            nmove += 1
            true_t, true_p = t + eps[0], p + eps[1]
            if stuck == "theta" or stuck == "part" and s.get("stuck"):
                hold = hold if hold is not None else true_t
                true_t = hold
            true_rows.append((true_t, true_p))
            rows.append({"DATE": (T0 + datetime.timedelta(seconds=round(sec, 3))).isoformat(sep=" "),
                         "POS_ID": pos.posid, "PETAL_ID": pos.petal_id, "PETAL_LOC": pos.petal_loc,
                         "DEVICE_LOC": pos.device_loc, "POS_T": t, "POS_P": p, "CTRL_ENABLED": True,
                         "TOTAL_MOVE_SEQUENCES": nmove, "EXPOSURE_ID": exp, "EXPOSURE_ITER": it,
                         "RECENT_REHOME": int(s["rehome"]), "GEAR_CALIB_T": gear[0], "GEAR_CALIB_P": gear[1],
                         "LOG_NOTE": s.get("note", "arc calibration; use_desimeter=True"), "_bad": False})
        exp += s.get("step", 1)
    tt = np.array(true_rows)
    x, y = pos.fp(tt[:, 0], tt[:, 1])
    nr = np.random.RandomState(rng.randrange(1 << 30))
    x = x + noise / np.sqrt(2) * nr.randn(len(x))
    y = y + noise / np.sqrt(2) * nr.randn(len(y))
    for r, a, b in zip(rows, x, y):
        r["X_FP"], r["Y_FP"] = round(float(a), 6), round(float(b), 6)
    good = [k for k in range(len(rows))]
    for k in rng.sample(good, min(outliers, len(good))):
        ang, d = rng.uniform(0, 6.28), rng.uniform(1.0, 4.0)
        rows[k]["X_FP"] = round(rows[k]["X_FP"] + d * np.cos(ang), 6)
        rows[k]["Y_FP"] = round(rows[k]["Y_FP"] + d * np.sin(ang), 6)
        rows[k]["_bad"] = True
    out = []
    for k, r in enumerate(rows):
        if rng.random() < disabled:        # a row to be dropped: control disabled, position elsewhere
            q = dict(r, CTRL_ENABLED=False, X_FP=round(r["X_FP"] + 3.0, 6), _drop=True,
                     TOTAL_MOVE_SEQUENCES=r["TOTAL_MOVE_SEQUENCES"])
            out.append(q)
            continue
        out.append(dict(r, _drop=False))
        if rng.random() < idle:            # recorded again without a move (e.g. a data base update)
            out.append(dict(r, DATE=(datetime.datetime.fromisoformat(r["DATE"]) + datetime.timedelta(seconds=1)).isoformat(sep=" "), _drop=True))
    if order == "shuffled":
        rng.shuffle(out)
    elif order == "reversed":
        out.reverse()
    return out


COLUMNS = ["DATE", "POS_ID", "PETAL_ID", "PETAL_LOC", "DEVICE_LOC", "POS_T", "POS_P", "X_FP", "Y_FP", "CTRL_ENABLED",
           "TOTAL_MOVE_SEQUENCES", "EXPOSURE_ID", "EXPOSURE_ITER", "RECENT_REHOME", "GEAR_CALIB_T", "GEAR_CALIB_P",
           "LOG_NOTE"]


def csv(rows, columns=None):
    cols = [c for c in (columns or COLUMNS) if rows and c in rows[0]] or COLUMNS
    out = [",".join(cols)]
    for r in rows:
        out.append(",".join(str(r[c]) for c in cols))
    return ("\n".join(out) + "\n").encode()


# ---- plans --------------------------------------------------------------
def spec(r, k, small=True, many=0.1, defect=None):
    """Plan of one positioner: JSON-able, the rows are drawn from its seed."""
    x = r.random()
    if x < many:
        # many short sequences, few of them without rehome: indices 1 and 10, 11 ...
        n = r.randint(11, 13)
        drift = set(r.sample([1, 2, 10, 11, n - 1], r.randint(1, 3)))
        seqs = [{"kind": "grid", "n": 3, "rehome": i not in drift, "eps": [round(r.uniform(-15, 15), 3), round(r.uniform(-4, 4), 3)]}
                for i in range(n)]
    else:
        ns = r.choice([1, 1, 1, 2, 2, 3])
        first = r.randrange(ns)         # at least one sequence after a rehome
        seqs = [{"kind": "arc" if i == first else r.choice(["arc", "grid"]), "n": r.randint(12, 20),
                 "rehome": i == first or r.random() < 0.4,
                 "eps": [round(r.uniform(-15, 15), 3), round(r.uniform(-4, 4), 3)], "step": r.choice([1, 1, 3])}
                for i in range(ns)]
    return {"posid": "M%05d" % (1000 + 37 * k + r.randrange(30)), "seed": r.randrange(1 << 30), "seqs": seqs,
            "noise": r.choice([0.0, 0.002, 0.004]), "gear": [r.choice([1.0, 1.0, 0.9, 0.8]), r.choice([1.0, 1.0, 0.85])],
            "days": r.choice([0.2, 3.0]), "disabled": r.choice([0, 0, 0.1]), "idle": r.choice([0, 0, 0.1]),
            "order": r.choice(["time", "time", "shuffled", "reversed"]), "outliers": 0, "stuck": None,
            "defect": defect, "petal": r.randrange(10), "nogear": r.random() < 0.15}


_SITES = {}


def site(petal_loc, k):
    """A positioner site of the nominal metrology: device, petal id, centre in petal flat coordinates."""
    if petal_loc not in _SITES:
        from dref import io as dio
        from dref import pos2ptl
        m = dio.load_metrology()
        m = m[(m["PETAL_LOC"] == petal_loc) & (m["DEVICE_TYPE"] == "POS")]
        xf, yf = pos2ptl.ptl2flat(np.array(m["X_PTL"]), np.array(m["Y_PTL"]))
        _SITES[petal_loc] = [(int(d), int(p), float(a), float(b), str(i)) for d, p, a, b, i in
                             zip(m["DEVICE_LOC"], m["PETAL_ID"], xf, yf, m["DEVICE_ID"])]
    s = _SITES[petal_loc]
    return s[k % len(s)]


def build(sp):
    """(positioner, rows) of a spec."""
    rng = random.Random("fleet/%d" % sp["seed"])
    dev, petal_id, x, y, _ = site(sp["petal"], rng.randrange(500))
    pos = Positioner(rng, sp["posid"], sp["petal"], dev, petal_id, x, y)
    gear = [1.0, 1.0] if sp.get("nogear") else sp["gear"]
    rows = history(pos, rng, sp["seqs"], noise=sp["noise"], days=sp["days"], gear=gear, stuck=sp["stuck"],
                   disabled=sp["disabled"], idle=sp["idle"], outliers=sp["outliers"], order=sp["order"])
    return pos, rows


def table_bytes(sp, rows):
    """The CSV file, with the defect of the spec."""
    d = sp.get("defect")
    cols = [c for c in COLUMNS if not (sp.get("nogear") and c.startswith("GEAR"))]
    rows = [dict(r) for r in rows]
    rng = random.Random("defect/%d" % sp["seed"])
    if d == "few":
        rows = [r for r in rows if not r["_drop"]][:rng.randint(2, 8)]
        for r in rows:
            r["RECENT_REHOME"] = 1
    elif d == "otherid":
        for r in rows:
            r["POS_ID"] = "M99999"
    elif d == "mixedid":
        rows[rng.randrange(len(rows))]["POS_ID"] = "M99999"
    elif d == "header":
        return (",".join(cols) + "\n").encode()
    elif d == "empty":
        return b""
    elif d == "nocol":
        cols = [c for c in cols if c != rng.choice(["X_FP", "Y_FP", "CTRL_ENABLED", "TOTAL_MOVE_SEQUENCES", "PETAL_LOC"])]
        if len(cols) == len(COLUMNS) - (2 if sp.get("nogear") else 0):
            cols.remove("X_FP")
    elif d == "garbage":
        b = bytearray(csv(rows, cols))
        for _ in range(40):
            b[rng.randrange(len(b))] = rng.randrange(128, 256)
        return bytes(b)
    elif d == "truncated":
        b = csv(rows, cols)
        k = rng.randrange(len(b) // 3, len(b) - 20)
        return b[:k - (b[k - 1:k] in (b"\n", b","))]
    elif d == "nan":
        k = rng.choice([k for k in range(len(rows)) if not rows[k]["_drop"]])
        rows[k][rng.choice(["X_FP", "Y_FP", "POS_T"])] = "nan"
    elif d == "norehome":
        for r in rows:
            r["RECENT_REHOME"] = 0
    elif d == "twopetals":
        for r in rows[len(rows) // 2:]:
            r["PETAL_ID"] = r["PETAL_ID"] + 1
    return csv(rows, cols)
