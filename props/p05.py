"""P05  coordinate transforms answer every call correctly, whatever happened before."""
import json
import os
import random
import sys

import numpy as np

from dsim import instrument as I
from dsim.driver import Prop, outcome
from dsim.util import Viol, new_world, read_exc, install_finder, Scheduler, patch_locks
from dsim.world import PYDIR

import dref.gfa2fp as r_gfa
import dref.ptl2fp as r_ptl
import dref.raytracefit as r_ray
import dref.echo22 as r_echo
import dref.radec2tan as r_rd
import dref.pos2ptl as r_pos
import dref.xy2qs as r_qs
import dref.rszn_lookups as r_rszn
import dref.fiberassign as r_fa
import dref.dm2pm as r_dm
import dref.fvc2fp as r_fvc
import dref.time as r_time
import dref.io as r_io

T = "desimeter.transform."
GFA = [0, 2, 3, 5, 7, 8]


def U(r, n, lo, hi):
    return np.array([r.uniform(lo, hi) for _ in range(n)])


def disk(r, n, rmax, rmin=0.0):
    a = U(r, n, 0, 2 * np.pi)
    d = np.sqrt(U(r, n, (rmin / rmax) ** 2, 1)) * rmax
    return d * np.cos(a), d * np.sin(a)


# kind of each output: ("lin", tol) | ("ang", tol) degrees modulo 360 | ("bool",)
LIN6 = ("lin", 1e-6)
LIN10 = ("lin", 1e-10)
DEG = ("ang", 1e-8)


def _pointing(r):
    return dict(tel_ra=r.choice([r.uniform(0, 360), 0.001, 359.9995, 180.0]),
                tel_dec=r.uniform(-15, 75), mjd=r.uniform(58000, 62000),
                ha=r.uniform(-60, 60), hexrot=r.uniform(-0.5, 0.5))


def _flags(r):
    k = {}
    for f in ("precession", "aberration", "polar_misalignment"):
        if r.random() < 0.3:
            k[f] = r.random() < 0.5
    if r.random() < 0.4:
        k["use_hardcoded_polmis_rotmat"] = r.random() < 0.7
    return k


def g_radec2tan(r, n):
    p = _pointing(r)
    dx, dy = disk(r, n, 1.6)
    dec = p["tel_dec"] + dy
    ra = (p["tel_ra"] + dx / np.cos(np.radians(dec))) % 360
    return (ra, dec, p["tel_ra"], p["tel_dec"], p["mjd"], (p["tel_ra"] + p["ha"]) % 360, p["hexrot"]), _flags(r)


def g_tan2radec(r, n):
    p = _pointing(r)
    x, y = disk(r, n, 0.028)
    return (x, y, p["tel_ra"], p["tel_dec"], p["mjd"], (p["tel_ra"] + p["ha"]) % 360, p["hexrot"]), _flags(r)


def _adc(r):
    k = r.random()
    if k < 0.2:
        a = r.choice([0.0, r.uniform(0, 360)])
        return a, a
    if k < 0.6:
        return r.uniform(0, 360), r.uniform(0, 360)
    return r.uniform(-180, 540), r.uniform(-180, 540)


def g_fp(r, n):
    return disk(r, n, 412.0) + _adc(r), {}


def g_tan(r, n):
    return disk(r, n, 0.0275) + _adc(r), {}


def _tile(r):
    p = _pointing(r)
    return (p["tel_ra"], p["tel_dec"], p["mjd"], p["ha"], r.choice([0.0, r.uniform(-0.2, 0.2)]))


def _fa_kw(r, to):
    k = {}
    if r.random() < 0.4:
        k["adc1"], k["adc2"] = r.uniform(0, 360), r.uniform(0, 360)
    if r.random() < 0.4:
        k[to] = r.random() < 0.5
    if r.random() < 0.4:
        k["use_hardcoded_polmis_rotmat"] = r.random() < 0.7
    return k


def g_fa_fwd(r, n):
    t = _tile(r)
    n = max(n, 6)
    dx, dy = disk(r, n, 1.55, 0.2)
    dec = t[1] + dy
    ra = (t[0] + dx / np.cos(np.radians(dec))) % 360
    return (ra, dec) + t, _fa_kw(r, "to_platemaker")


def g_fa_inv(r, n):
    n = max(n, 6)
    return disk(r, n, 405.0, 20.0) + _tile(r), _fa_kw(r, "from_platemaker")


def g_gfa(r, n):
    return (r.choice(GFA), U(r, n, -20, 2070), U(r, n, -20, 1050)), {}


def g_fp2gfa(r, n):
    p = r.choice(GFA)
    x, y = r_gfa.gfa2fp(p, U(r, n, 0, 2047), U(r, n, 0, 1031))
    return (p, x, y), {}


def _wedge(r, n, rmin=40.0, rmax=405.0):
    a = U(r, n, 0, np.pi / 5)
    d = U(r, n, rmin, rmax)
    return d * np.cos(a), d * np.sin(a)


def g_ptl(r, n):
    x, y = _wedge(r, n)
    a = (r.randrange(10), x, y)
    if r.random() < 0.6:
        a += (U(r, n, -20, 1),)
    return a, {}


def g_fp2ptl(r, n):
    x, y = disk(r, n, 405, 40)
    a = (r.randrange(10), x, y)
    if r.random() < 0.6:
        a += (U(r, n, -20, 1),)
    return a, {}


def _cal(r, n, vec):
    def one(lo, hi):
        return U(r, n, lo, hi) if vec else r.uniform(lo, hi)
    return one(2.8, 3.2), one(2.8, 3.2), one(-180, 180), one(-20, 20)


def g_int2loc(r, n):
    return (U(r, n, -180, 180), U(r, n, 0, 180)) + _cal(r, n, r.random() < 0.6), {}


def g_int2ptl(r, n):
    v = r.random() < 0.6
    c = _cal(r, n, v)
    x, y = disk(r, n, 400, 20)
    if not v:
        x, y = float(x[0]), float(y[0])
    return (U(r, n, -180, 180), U(r, n, 0, 180)) + c + (x, y), {}


def g_loc2int(r, n):
    x, y = disk(r, n, 6.6)
    k = {}
    if r.random() < 0.5:
        k["t_int_guess"] = U(r, n, -180, 180)
    return (x, y) + _cal(r, n, True), k


def g_ptl2int(r, n):
    x, y = disk(r, n, 400, 20)
    dx, dy = disk(r, n, 6.4)
    fx, fy = r_pos.ptl2flat(x, y)
    k = {}
    if r.random() < 0.5:
        k["t_int_guess"] = U(r, n, -180, 180)
    return (x + dx, y + dy) + _cal(r, n, True) + (fx, fy), k


def g_ext2loc(r, n):
    c = _cal(r, n, r.random() < 0.5)
    return (U(r, n, -360, 360), U(r, n, -20, 200), c[0], c[1]), {}


def g_loc2ext(r, n):
    x, y = disk(r, n, 6.6)
    k = {}
    if r.random() < 0.5:
        k["t_ext_guess"] = U(r, n, -180, 180)
    return (x, y) + _cal(r, n, True), k


def g_off(r, n):
    return (U(r, n, -400, 400), U(r, n, -300, 300) if r.random() < 0.5 else r.uniform(-300, 300)), {}


def g_delta(r, n):
    a = np.array([r.choice([-179., 0., 90., 179., r.uniform(-400, 400)]) for _ in range(n)])
    b = np.array([r.choice([-179., 0., 450., 179., 360., r.uniform(-900, 900)]) for _ in range(n)])
    d = np.array([float(r.choice([-1, 0, 1])) for _ in range(n)]) if r.random() < 0.7 else r.choice([-1, 0, 1])
    return (a, b, d), {}


def g_xy(r, n):
    return disk(r, n, 420), {}


def g_flat(r, n):
    return disk(r, n, 412), {}


def g_qs(r, n):
    return (U(r, n, -360, 360), U(r, n, 0, 415)), {}


def g_r(r, n):
    return (U(r, n, 0, r.choice([30, 420, 420, 700])),), {}


def g_z(r, n):
    return (U(r, n, -19, 0),), {}


def g_n(r, n):
    return (U(r, n, 0, 5.7),), {}


def g_theta(r, n):
    return (U(r, n, 0, 1.6),), {}


def g_altaz(r, n):
    return (U(r, n, 5, 89.9), U(r, n, 0, 360)), {}


def g_hadec(r, n):
    return (U(r, n, -180, 180), U(r, n, -35, 89.5)), {}


def g_hadec2xy(r, n):
    h, d = r.uniform(-80, 80), r.uniform(-20, 80)
    dx, dy = disk(r, n, 1.6)
    return (h + dx / np.cos(np.radians(d)), d + dy, h, d), {}


def g_xy2hadec(r, n):
    return disk(r, n, 0.03) + (r.uniform(-80, 80), r.uniform(-20, 80)), {}


def g_alt(r, n):
    return (U(r, n, 20, 90),), {}


def g_radec(r, n):
    return (U(r, n, 0, 360), U(r, n, -80, 80), r.uniform(58000, 62000)), {}


def g_mjd(r, n):
    return (U(r, n, 58000, 62000),), {}


def g_pix(r, n):
    return (U(r, n, 100, 5900), U(r, n, 100, 5900)), {}


def g_spots(r, n):
    x, y = _wedge(r, n)
    return (np.array([r.randrange(10) for _ in range(n)]), x, y, U(r, n, -18, 0)), {}


# instances with coefficients other than the packaged ones, kept by the process
def _obj_json(kind, k):
    r = random.Random("p05obj/%s/%d" % (kind, k))
    if kind == "dm2pm":
        t = r_dm.DM2PM.read(r_io.dm2pm_filename())
        t.dm2pm_zbcoeffs = t.dm2pm_zbcoeffs + U(r, len(t.dm2pm_zbcoeffs), -1e-3, 1e-3) * (k > 0)
        t.pm2dm_zbcoeffs = t.pm2dm_zbcoeffs + U(r, len(t.pm2dm_zbcoeffs), -1e-3, 1e-3) * (k > 0)
        return t.tojson()
    if kind == "fvc":
        t = r_fvc.FVC2FP.read(r_io.fvc2fp_filename())
        if k:
            t.scale *= 1 + r.uniform(-.02, .02)
            t.rotation += r.uniform(-.1, .1)
            t.offset_x += r.uniform(-.02, .02)
            t.zbcoeffs = t.zbcoeffs + U(r, len(t.zbcoeffs), -1e-4, 1e-4)
        return t.tojson()
    if kind == "ray":
        with open(os.path.join(r_io.DATA, "raytrace-tan2fp%s.json" % ("-6560A" if k else ""))) as f:
            return f.read()


CLASSES = {"dm2pm": (T + "dm2pm", "DM2PM", r_dm.DM2PM), "fvc": (T + "fvc2fp", "FVC2FP", r_fvc.FVC2FP),
           "ray": (T + "tan2fp.raytracefit", "TAN2FP_RayTraceFit", r_ray.TAN2FP_RayTraceFit)}

# name: (module, function, reference, generator, output kinds, lazily cached calibration?)
F = {}


def add(name, mod, ref, gen, outs, w=1):
    F[name] = (mod, name.split(":")[-1], ref, gen, outs, w)


add("gfa:gfa2fp", T + "gfa2fp", r_gfa.gfa2fp, g_gfa, (LIN6, LIN6), 3)
add("gfa:fp2gfa", T + "gfa2fp", r_gfa.fp2gfa, g_fp2gfa, (("lin", 1e-4),) * 2, 3)
add("ptl:ptl2fp", T + "ptl2fp", r_ptl.ptl2fp, g_ptl, (LIN6,) * 3, 3)
add("ptl:fp2ptl", T + "ptl2fp", r_ptl.fp2ptl, g_fp2ptl, (LIN6,) * 3, 3)
add("ray:tan2fp", T + "tan2fp.raytracefit", r_ray.tan2fp, g_tan, (LIN6, LIN6), 2)
add("ray:fp2tan", T + "tan2fp.raytracefit", r_ray.fp2tan, g_fp, (LIN10, LIN10), 2)
add("pkg:tan2fp", T + "tan2fp", r_ray.tan2fp, g_tan, (LIN6, LIN6))
add("pkg:fp2tan", T + "tan2fp", r_ray.fp2tan, g_fp, (LIN10, LIN10))
add("echo:tan2fp", T + "tan2fp.echo22", r_echo.tan2fp, lambda r, n: (disk(r, n, 0.0275), {}), (("lin", 1e-5),) * 2, 2)
add("echo:fp2tan", T + "tan2fp.echo22", r_echo.fp2tan, lambda r, n: (disk(r, n, 412), {}), (("lin", 1e-9),) * 2, 2)
add("echo:radius2theta", T + "tan2fp.echo22", r_echo.radius2theta, g_r, (("lin", 1e-7),))
add("echo:theta2radius", T + "tan2fp.echo22", r_echo.theta2radius, g_theta, (("lin", 1e-5),))
for nm, g, o in (("radec2tan", g_radec2tan, (LIN10, LIN10)), ("tan2radec", g_tan2radec, (DEG, DEG)),
                 ("hadec2altaz", g_hadec, (DEG, DEG)), ("altaz2hadec", g_altaz, (DEG, DEG)),
                 ("hadec2xy", g_hadec2xy, (LIN10, LIN10)), ("xy2hadec", g_xy2hadec, (DEG, DEG)),
                 ("apply_refraction", g_alt, (DEG,)), ("undo_refraction", g_alt, (DEG,)),
                 ("apply_precession_from_icrs", g_radec, (DEG, DEG)),
                 ("undo_precession_from_icrs", g_radec, (DEG, DEG)),
                 ("apply_aberration", g_radec, (DEG, DEG)), ("undo_aberration", g_radec, (DEG, DEG))):
    add("sky:" + nm, T + "radec2tan", getattr(r_rd, nm), g, o, 3 if "tan" in nm else 1)
for nm, g in (("radec2xy_cs5", g_fa_fwd), ("cs5_xy2radec", g_fa_inv), ("radec2xy_flat", g_fa_fwd),
              ("flat_xy2radec", g_fa_inv)):
    add("fa:fiberassign_" + nm, "desimeter.fiberassign", getattr(r_fa, "fiberassign_" + nm), g,
        (LIN6, LIN6) if nm.startswith("radec") else (("ang", 1e-7),) * 2, 2)
LOC = (("lin", 1e-8),) * 2
ANG = (("ang", 1e-6),) * 2
for nm, g, o in (("ptl2flat", g_xy, LOC), ("flat2ptl", g_flat, LOC), ("flat2loc", g_off, LOC[:1]),
                 ("loc2flat", g_off, LOC[:1]), ("ext2int", g_off, LOC[:1]), ("int2ext", g_off, LOC[:1]),
                 ("delta_angle", g_delta, LOC[:1]), ("int2loc", g_int2loc, LOC), ("int2ptl", g_int2ptl, LOC),
                 ("ext2loc", g_ext2loc, LOC), ("loc2int", g_loc2int, ANG + (("bool",),)),
                 ("ptl2int", g_ptl2int, ANG + (("bool",),)), ("loc2ext", g_loc2ext, ANG + (("bool",),))):
    add("pos:" + nm, T + "pos2ptl", getattr(r_pos, nm), g, o)
for nm, g, o in (("xy2qs", g_xy, (DEG, LOC[0])), ("qs2xy", g_qs, LOC), ("r2s", g_r, LOC[:1]), ("s2r", g_r, LOC[:1]),
                 ("xy2uv", g_xy, LOC), ("uv2xy", g_flat, LOC)):
    add("qs:" + nm, T + "xy2qs", getattr(r_qs, nm), g, o)
for nm in ("r2s", "s2r", "r2z", "z2r", "r2n", "n2r", "s2n", "s2z", "z2s", "n2s"):
    add("rszn:" + nm, T + "rszn_lookups", getattr(r_rszn, nm), {"z": g_z, "n": g_n}.get(nm[0], g_r), LOC[:1], 0.4)
add("time:mjd2lst", "desimeter.time", r_time.mjd2lst, g_mjd, (("ang", 1e-7),))
NAMES = sorted(F)
OBJ = [("dm2pm", "dm2pm", g_xy, (LIN6, LIN6)), ("dm2pm", "pm2dm", g_xy, (LIN6, LIN6)),
       ("fvc", "fvc2fp", g_pix, (("lin", 1e-5),) * 2), ("fvc", "fp2fvc", g_flat, (("lin", 1e-5),) * 2),
       ("ray", "tan2fp", g_tan, (LIN6, LIN6)), ("ray", "fp2tan", g_fp, (LIN10, LIN10))]
LAZY = ["gfa:gfa2fp", "gfa:fp2gfa", "ptl:ptl2fp", "ptl:fp2ptl", "ray:tan2fp", "ray:fp2tan", "echo:tan2fp",
        "echo:fp2tan", "fa:fiberassign_radec2xy_cs5", "ptl:apply_ptl2fp"]


def compare(got, ref, outs):
    """None or text."""
    if outs == "table":
        return cmp_table(got, ref)
    if len(outs) == 1:
        got, ref = (got,), (ref,)
    try:
        got = tuple(got)
    except TypeError:
        return "returned %r" % type(got)
    if len(got) != len(outs):
        return "%d values, expected %d" % (len(got), len(outs))
    for k, (g, e, o) in enumerate(zip(got, ref, outs)):
        try:
            g = np.asarray(g)
            e = np.asarray(e)
            if o[0] == "bool":
                if g.shape != e.shape or (g.astype(bool) != e.astype(bool)).any():
                    return "value %d is %s, expected %s" % (k, g, e)
                continue
            g = g.astype(float)
        except (TypeError, ValueError):
            return "value %d is %r" % (k, g)
        if g.shape != e.shape:
            return "value %d has shape %s, expected %s" % (k, g.shape, e.shape)
        d = np.abs(g - e)
        if o[0] == "ang":
            d = np.abs((g - e + 180.0) % 360.0 - 180.0)
        both = np.isnan(g) & np.isnan(e)
        d = np.where(both, 0, d)
        if not (d <= o[1] * np.fmax(1.0, np.abs(e) * 1e-3)).all():
            i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            return "value %d is %r, expected %r (element %d of %d)" % (
                k, g.flat[i] if g.size else g, e.flat[i] if e.size else e, i, e.size)
    return None


def cmp_table(got, ref):
    if isinstance(ref, dict):
        return None if got == ref else "the calibration data returned differ from the file"
    try:
        if list(got.colnames) != list(ref.colnames) or len(got) != len(ref):
            return "the table returned has other columns or rows than the file"
        for k in ref.colnames:
            a, b = np.asarray(got[k]), np.asarray(ref[k])
            if a.dtype.kind == "f" and b.dtype.kind == "f":
                bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
            else:
                bad = a != b
            if np.any(bad):
                return "the column %s of the table returned differs from the file" % k
    except Exception as e:
        return "unusable table: %s" % read_exc(e)
    return None


TABLES = ("io:load_metrology", "io:load_petal_alignement", "io:load_nominal_positioner_locations")


def scribble(x):
    """The caller owns what it was given and may overwrite it."""
    if isinstance(x, tuple):
        for y in x:
            scribble(y)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
        x += 12345.678
    elif isinstance(x, dict):
        for y in x.values():
            if isinstance(y, dict):
                for k in y:
                    y[k] = 0.5
    elif hasattr(x, "colnames"):
        for k in x.colnames:
            if x[k].dtype.kind == "f":
                x[k] += 3.5
            elif x[k].dtype.kind == "i":
                x[k] = x[k][::-1].copy()


def scalars(a, kw):
    def one(x):
        return float(x.flat[0]) if isinstance(x, np.ndarray) else x
    return tuple(one(x) for x in a), {k: one(x) for k, x in kw.items()}


class P(Prop):
    id = "P05"
    rule = ("one case = one seeded history of transform calls (about 60 functions and methods, random inputs over the "
            "sky, the focal plane, ADC angles and positioner angles) in processes and concurrent threads with failing "
            "calibration reads; non-trivial = at least one call agreed with the reference")
    state_measure = "(function, first use in the process or not, concurrency, fault, outcome)"
    real = ["transform.*", "fiberassign", "simplecorr", "io", "log", "time", "trig"]
    stubs = ["thread scheduler", "file system faults", "process restarts"]
    assumptions = ["reference = frozen copy of the transforms and calibration files at the pinned commit"]
    must_probe = ["call_ok", "threads", "eio", "emfile", "failed_then_ok", "object", "lazy_first_use", "table"]
    tiers = {"quick": {"runs": 640, "cap_s": 70, "run_timeout": 120, "min_s": 60},
             "thorough": {"runs": 30000, "cap_s": 2400, "run_timeout": 120, "min_s": 180}}

    def setup(self, base):
        install_finder()
        self.base = base
        self.datadir = I.make_datadir(os.path.join(base, "data"))
        from astropy.table import Table
        import yaml
        nom = Table.read(os.path.join(self.datadir, "positioner_locations_0530v18.csv"))
        for a, b in (("device_location_id", "DEVICE_LOC"), ("device_type", "DEVICE_TYPE"), ("X", "X_PTL"),
                     ("Y", "Y_PTL"), ("Z", "Z_PTL"), ("FLAT_X", "X_FLAT"), ("FLAT_Y", "Y_FLAT")):
            nom.rename_column(a, b)
        with open(os.path.join(self.datadir, "petal-alignments.yaml")) as f:
            pet = yaml.safe_load(f)
        self.tables = {"io:load_metrology": Table.read(os.path.join(self.datadir, "fp-metrology.csv")),
                       "io:load_petal_alignement": pet, "io:load_nominal_positioner_locations": nom}
        self.scalar_ok = set()
        for k in NAMES:     # fill the caches of the reference once, in the parent
            f = F[k]
            a, kw = f[3](random.Random(1), 3)
            f[2](*a, **kw)
            try:
                a, kw = scalars(a, kw)
                if np.size(f[2](*a, **kw)) and not k.startswith("fa:"):
                    self.scalar_ok.add(k)
            except Exception:
                pass

    # ------------------------------------------------------------------
    def gen(self, seed, tier):
        r = random.Random("p05gen/%d" % seed)
        cfg = r.choice(["seq", "seq", "fault", "threads", "threads", "threadfault"])
        weights = [F[k][5] for k in NAMES]

        def call(lazy=False):
            c = {"seed": r.getrandbits(30), "n": r.choice([1, 2, 5, 17, 60]), "scalar": r.random() < 0.15,
                 "proc": r.randrange(2)}
            x = r.random()
            if lazy and x < 0.8:
                c["f"] = r.choice(LAZY)
            elif x > 0.86:
                k = r.randrange(len(OBJ))
                c["f"] = "obj:%d:%d" % (k, r.randrange(3) if OBJ[k][0] != "ray" else r.randrange(2))
            elif x > 0.82:
                c["f"] = "ptl:apply_ptl2fp"
            elif x > 0.78:
                c["f"] = r.choice(TABLES)
            else:
                c["f"] = r.choices(NAMES, weights)[0]
            return c
        steps = []
        for _ in range(r.randint(2, 5) if "thread" in cfg else r.randint(6, 20)):
            x = r.random()
            if x < 0.12:
                steps.append({"op": "restart", "proc": r.randrange(2)})
            elif "thread" in cfg and x < 0.75:
                steps.append({"op": "restart", "proc": 0})
                same = r.random() < 0.5
                cs = [call(True) for _ in range(r.randint(2, 4))]
                if same:
                    fam = cs[0]["f"].split(":")[0]
                    alt = [k for k in LAZY if k.split(":")[0] == fam] or [cs[0]["f"]]
                    for c in cs[1:]:
                        c["f"] = r.choice(alt)
                steps.append({"op": "par", "calls": cs})
            else:
                steps.append({"op": "call", "calls": [call("fault" in cfg)]})
        faults = []
        if "fault" in cfg:
            for _ in range(r.randint(1, 3)):
                faults.append({"kind": r.choice(["eio", "emfile", "eacces"]), "ops": ["open_r"],
                               "at": r.randrange(r.choice([2, 6])), "sticky": r.choice([0, 0, 3, 8])})
        return {"seed": seed, "config": cfg, "steps": steps, "faults": faults,
                "sched": {"seed": seed, "p": r.choice([0.005, 0.02, 0.1]), "p_io": r.choice([0.3, 0.7])},
                "_lists": ["steps", "faults"]}

    # ------------------------------------------------------------------
    def _case(self, c):
        r = random.Random("p05/%s/%d" % (c["f"], c["seed"]))
        n = c["n"]
        if c["f"].startswith("obj:"):
            _, k, j = c["f"].split(":")
            kind, meth, g, outs = OBJ[int(k)]
            a, kw = g(r, n)
            ref = getattr(CLASSES[kind][2].fromjson(_obj_json(kind, int(j))), meth)(*a, **kw)
            return a, kw, ref, outs
        if c["f"] in TABLES:
            return [], {}, self.tables[c["f"]], "table"
        if c["f"] == "ptl:apply_ptl2fp":
            a, kw = g_spots(r, n)
            o = [r_ptl.ptl2fp(p, np.array([x]), np.array([y]), np.array([z])) for p, x, y, z in zip(*a)]
            ref = tuple(np.array([q[k][0] for q in o]) for k in range(3))
            return a, kw, ref, (LIN6,) * 3
        mod, fn, reff, g, outs, _ = F[c["f"]]
        a, kw = g(r, n)
        if c.get("scalar") and c["f"] in self.scalar_ok:
            a, kw = scalars(a, kw)
        return a, kw, reff(*[copy(x) for x in a], **{k: copy(v) for k, v in kw.items()}), outs

    def _real(self, c, a, kw, objs):
        import importlib
        if c["f"].startswith("obj:"):
            _, k, j = c["f"].split(":")
            kind, meth, g, outs = OBJ[int(k)]
            key = (kind, int(j))
            if key not in objs:
                m = importlib.import_module(CLASSES[kind][0])
                objs[key] = getattr(m, CLASSES[kind][1]).fromjson(_obj_json(kind, int(j)))
            return getattr(objs[key], meth)(*a, **kw)
        if c["f"] == "ptl:apply_ptl2fp":
            from astropy.table import Table
            m = importlib.import_module(T + "ptl2fp")
            t = m.apply_ptl2fp(Table({"PETAL_LOC": a[0], "X_PTL": a[1], "Y_PTL": a[2], "Z_PTL": a[3]}))
            return tuple(np.array(t[k]) for k in ("X_FP", "Y_FP", "Z_FP"))
        if c["f"] in TABLES:
            return getattr(importlib.import_module("desimeter.io"), c["f"][3:])()
        mod, fn = F[c["f"]][:2]
        return getattr(importlib.import_module(mod), fn)(*a, **kw)

    def run(self, plan, root, keep_log=0):
        v = Viol()
        w = new_world(root, plan, keep_log)
        w.fault_prefixes = (os.path.join(PYDIR, "desimeter", "data") + "/",
                            os.path.join(PYDIR, "desimeter", "transform", "tan2fp", "data") + "/")
        w.use_data(self.datadir)
        procs, objs, used = {}, {}, {}
        stats = {"ok": 0}
        nsw = [0]
        failed = set()
        old = np.seterr(all="ignore")
        w.install()
        patch_locks(w)
        try:
            def proc(n):
                p = procs.get(n)
                if p is None or p.dead:
                    p = procs[n] = w.new_process("p%d" % n)
                    objs[n], used[n] = {}, set()
                return p

            def judge(c, n, case, args, res, faulted, where):
                st, val = res
                a, kw, ref, outs = case
                w.state(c["f"], c["f"] in used[n], where, faulted, st)
                w.log("res", c["f"], st)
                fam = c["f"].split(":")[0]
                for x, y in zip(args[0], a):
                    if isinstance(x, np.ndarray) and not np.array_equal(x, y):
                        v.add("argument-changed", "%s changed its argument" % c["f"])
                for k, y in kw.items():
                    if isinstance(y, np.ndarray) and not np.array_equal(args[1][k], y):
                        v.add("argument-changed", "%s changed its argument" % c["f"])
                if st == "ok":
                    bad = compare(val, ref, outs)
                    if bad:
                        v.add("wrong-value", "%s (%s): %s" % (c["f"], where, bad))
                        return
                    stats["ok"] += 1
                    w.probe("call_ok")
                    if c["f"] in LAZY and c["f"] not in used[n]:
                        w.probe("lazy_first_use")
                    if fam == "obj":
                        w.probe("object")
                    if fam == "io":
                        w.probe("table")
                    if fam in failed:
                        w.probe("failed_then_ok")
                        failed.discard(fam)
                    used[n].add(c["f"])
                    scribble(val)
                else:
                    failed.add(fam)
                    if not faulted:
                        v.add("spurious-failure", "%s failed (%s): %s" % (
                            c["f"], where, read_exc(val) if st == "exc" else val))

            def nf():
                return sum(w.fired.values())
            for step in plan["steps"]:
                if v:
                    break
                if step["op"] == "restart":
                    procs.pop(step["proc"], None)
                    continue
                f0 = nf()
                todo = []
                for c in step["calls"]:
                    n = 0 if step["op"] == "par" else c["proc"]
                    case = self._case(c)
                    args = ([own(x, c) for x in case[0]], {k: own(x, c) for k, x in case[1].items()})
                    todo.append((c, n, case, args))
                if step["op"] == "call":
                    c, n, case, args = todo[0]
                    p = proc(n)
                    res = w.call(p, self._real, c, args[0], args[1], objs[n])
                    judge(c, n, case, args, res, nf() > f0, "sequential")
                    continue
                d = os.path.join(PYDIR, "desimeter")
                sch = Scheduler(w, plan["sched"], trace_prefixes=(d + "/transform/", d + "/fiberassign.py",
                                                                 d + "/io.py", d + "/log.py"))
                w.sched = sch
                p = proc(0)
                w.probe("threads")
                ts = []
                for j, (c, n, case, args) in enumerate(todo):
                    # concurrent callers share nothing but the modules
                    ts.append(sch.spawn("t%d" % j, p, lambda c=c, args=args: self._real(c, args[0], args[1], {})))
                sch.run()
                nsw[0] += len(sch.switches)
                if sch.deadlock:
                    v.add("deadlock", "concurrent calls never finish")
                    break
                for t, (c, n, case, args) in zip(ts, todo):
                    judge(c, n, case, args, t.result, nf() > f0, "concurrent")
            if not v:
                w.clear_faults()
                for k, name in enumerate(LAZY):
                    c = {"f": name, "seed": plan["seed"] + k, "n": 3}
                    for n in sorted(procs):
                        case = self._case(c)
                        args = ([copy(x) for x in case[0]], {q: copy(x) for q, x in case[1].items()})
                        judge(c, n, case, args, w.call(proc(n), self._real, c, args[0], args[1], objs[n]),
                              False, "after the faults")
        finally:
            w.uninstall()
            np.seterr(**old)
        return outcome(w, v.items, nontrivial=stats["ok"] > 0, steps=nsw[0], evals=stats["ok"])


def own(x, c):
    """A copy, read only in a third of the calls (a table shared by many callers)."""
    x = copy(x)
    if isinstance(x, np.ndarray) and c["seed"] % 3 == 0:
        x.setflags(write=False)
    return x


def copy(x):
    return x.copy() if isinstance(x, np.ndarray) else x


PROP = P()
