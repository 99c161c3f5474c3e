"""The simulated instrument: focal plane, fibre view camera, guide cameras.

Truth comes from the frozen reference model in dref/, never from /repo.
"""
import json
import math
import os
import shutil

import numpy as np

from dref.fvc2fp import FVC2FP
import dref.io as dio

REPO = os.environ.get("DSIM_REPO", "/repo")
REPODATA = os.path.join(REPO, "py", "desimeter", "data")
COPY = ["petal-alignments.yaml", "dm2pm.json", "desi_positioner_indexes.csv",
        "focal_surface_lookup.csv", "positioner_locations_0530v18.csv"]


def truth_tx():
    return FVC2FP.read(dio.fvc2fp_filename())


def make_datadir(path, keep=None, xoff=None, yoff=None, zb=True, pinhole_limit=None):
    """A DESIMETER_DATA directory cut down to the rows `keep(row dict)` accepts.

    The rows and the transform come from /repo's own data files, so that a
    change in those is part of what is tested.
    """
    os.makedirs(path, exist_ok=True)
    for f in COPY:
        src = os.path.join(REPODATA, f)
        if os.path.exists(src):
            shutil.copyfile(src, os.path.join(path, f))
    src = os.path.join(REPODATA, "fp-metrology.csv")
    dst = os.path.join(path, "fp-metrology.csv")
    if keep is None:
        shutil.copyfile(src, dst)
    else:
        import csv
        with open(src, newline="") as f, open(dst, "w", newline="") as o:
            rd = csv.DictReader(f)
            wr = csv.DictWriter(o, rd.fieldnames, lineterminator="\n")
            wr.writeheader()
            for row in rd:
                if keep(row):
                    wr.writerow(row)
    with open(os.path.join(REPODATA, "init-fvc2fp.json")) as f:
        tx = json.load(f)
    if xoff is not None:
        tx["xfvc_offset"], tx["yfvc_offset"] = xoff, yoff
    if not zb:
        tx["zbcoeffs"] = [0.0 for _ in tx["zbcoeffs"]]
    with open(os.path.join(path, "init-fvc2fp.json"), "w") as f:
        json.dump(tx, f)
    return path


class FocalPlane:
    """Truth metrology restricted to a radius (mini) or complete (full)."""

    def __init__(self, rmax=None, center=(0.0, 0.0)):
        m = dio.load_metrology()
        x, y = np.array(m["X_FP"], float), np.array(m["Y_FP"], float)
        dt = np.array(m["DEVICE_TYPE"]).astype(str)
        loc = np.array(m["LOCATION"], int)
        pin = np.array(m["PINHOLE_ID"], int)
        self.pet = np.array(m["PETAL_LOC"], int)
        self.dev = np.array(m["DEVICE_LOC"], int)
        self.devid = np.array(m["DEVICE_ID"]).astype(str)
        self.x, self.y, self.z = x, y, np.array(m["Z_FP"], float)
        self.dt, self.loc, self.pin = dt, loc, pin
        pos = dt == "POS"
        fid = (dt == "FIF") | (dt == "GIF")
        if rmax is not None:
            r = np.hypot(x - center[0], y - center[1])
            okfid = set()
            for L in np.unique(loc[fid]):
                ii = loc == L
                if np.all(r[ii] < rmax):
                    okfid.add(int(L))
            self.keep_loc = {int(L) for L in loc[pos & (r < rmax)]} | okfid
        else:
            self.keep_loc = {int(L) for L in loc[pos | fid]}
        kl = np.isin(loc, sorted(self.keep_loc))
        self.ipos = np.where(pos & kl)[0]
        self.ifid = np.where(fid & kl)[0]
        self.inull = np.where((pin == 0) & (kl if rmax is not None else True))[0]
        self.fidlocs = np.unique(loc[self.ifid])
        self.rmax = rmax

    def keep(self, row):
        if self.rmax is None:
            return True
        return row["DEVICE_TYPE"] in ("POS", "FIF", "GIF") and int(row["LOCATION"]) in self.keep_loc


class MiniInstrument:
    """Central part of the focal plane on a small FVC detector."""

    def __init__(self, base=None, rmax=70.0, margin=14.0, reach=8.0, name="mini",
                 center=(0.0, 0.0)):
        self.fp = fp = FocalPlane(rmax, center)
        tx = truth_tx()
        ext = []
        for i in list(fp.ipos) + list(fp.ifid):
            ext.append((fp.x[i], fp.y[i]))
        ext = np.array(ext)
        ex = np.concatenate([ext + [dx, dy] for dx in (-reach, reach) for dy in (-reach, reach)])
        px, py = tx.fp2fvc(ex[:, 0], ex[:, 1])
        self.xoff = float(np.round(tx.xfvc_offset - px.min() + margin))
        self.yoff = float(np.round(tx.yfvc_offset - py.min() + margin))
        self.nx = int(math.ceil(px.max() - px.min() + 2 * margin))
        self.ny = int(math.ceil(py.max() - py.min() + 2 * margin))
        self.datadir = None
        if base is not None:
            self.datadir = make_datadir(os.path.join(base, name), fp.keep, self.xoff, self.yoff)

    def tx(self, rng=None, amp=1.0):
        """The true optics of this exposure: nominal, slightly moved."""
        t = truth_tx()
        t.xfvc_offset, t.yfvc_offset = self.xoff, self.yoff
        if rng is not None:
            t.scale *= 1 + amp * rng.uniform(-2e-3, 2e-3)
            t.rotation += amp * rng.uniform(-2e-3, 2e-3)
            t.offset_x += amp * rng.uniform(-6e-4, 6e-4)
            t.offset_y += amp * rng.uniform(-6e-4, 6e-4)
        return t


class FullInstrument(MiniInstrument):
    def __init__(self, base=None, name="full"):
        self.fp = FocalPlane(None)
        t = truth_tx()
        self.xoff, self.yoff = t.xfvc_offset, t.yfvc_offset
        self.nx = self.ny = 6000
        self.datadir = None
        if base is not None:
            self.datadir = make_datadir(os.path.join(base, name))


def scatter_fibres(fp, rng, rmax, min_sep=2.6, fid_sep=3.2, rmin=0.0):
    """Random fibre positions, kept apart from each other and from fiducials."""
    from scipy.spatial import cKDTree
    idx = fp.ipos
    fx, fy = fp.x[fp.ifid], fp.y[fp.ifid]
    ftree = cKDTree(np.c_[fx, fy])
    ctree = cKDTree(np.c_[fp.x[idx], fp.y[idx]])
    n = len(idx)
    ang = np.array([rng.uniform(0, 2 * math.pi) for _ in range(n)])
    rad = np.array([rmin + (rmax - rmin) * math.sqrt(rng.random()) for _ in range(n)])
    x = fp.x[idx] + rad * np.cos(ang)
    y = fp.y[idx] + rad * np.sin(ang)
    for it in range(60):
        bad = set()
        d, _ = ftree.query(np.c_[x, y])
        bad.update(np.where(d < fid_sep)[0].tolist())
        t = cKDTree(np.c_[x, y])
        for a, b in sorted(t.query_pairs(min_sep)):
            bad.add(b)
        if not bad:
            break
        for k in sorted(bad):
            a = rng.uniform(0, 2 * math.pi)
            r = rmin + (rmax - rmin) * math.sqrt(rng.random()) * (1.0 if it < 30 else 0.3)
            x[k] = fp.x[idx[k]] + r * math.cos(a)
            y[k] = fp.y[idx[k]] + r * math.sin(a)
    else:
        ok = np.ones(n, bool)
        ok[sorted(bad)] = False
        return idx[ok], x[ok], y[ok]
    return idx, x, y


class Exposure:
    """Truth of one FVC exposure: a list of light spots on the detector."""

    def __init__(self, inst, rng, rmax=4.3, amp=1.0, tx=None, **kw):
        self.inst = inst
        fp = inst.fp
        self.tx = tx if tx is not None else inst.tx(rng, amp)
        idx, x, y = scatter_fibres(fp, rng, rmax, **kw)
        xf = np.concatenate([x, fp.x[fp.ifid]])
        yf = np.concatenate([y, fp.y[fp.ifid]])
        self.loc = np.concatenate([fp.loc[idx], fp.loc[fp.ifid]])
        self.pin = np.concatenate([np.zeros(len(idx), int), fp.pin[fp.ifid]])
        self.xfp, self.yfp = xf, yf
        self.xpix, self.ypix = self.tx.fp2fvc(xf, yf)
        self.counts = np.array([rng.uniform(30000, 90000) for _ in xf])
        self.n = len(xf)

    def select(self, mask):
        e = object.__new__(Exposure)
        e.__dict__.update(self.__dict__)
        for k in ("loc", "pin", "xfp", "yfp", "xpix", "ypix", "counts"):
            setattr(e, k, getattr(self, k)[mask])
        e.n = len(e.loc)
        return e

    def csv(self, rng, order="shuffle", noise=0.0, extra=()):
        """CSV spot table in random order; returns (text, index of truth per row)."""
        ii = list(range(self.n))
        if order == "shuffle":
            rng.shuffle(ii)
        rows = []
        for i in ii:
            rows.append((self.xpix[i] + rng.gauss(0, noise) if noise else self.xpix[i],
                         self.ypix[i] + rng.gauss(0, noise) if noise else self.ypix[i],
                         0.01, 0.01, self.counts[i], i))
        for (px, py, c) in extra:
            rows.insert(rng.randrange(len(rows) + 1), (px, py, 0.02, 0.02, c, -1))
        txt = ["XPIX,YPIX,XERR,YERR,COUNTS"]
        for r in rows:
            txt.append("%.12g,%.12g,%g,%g,%.6f" % r[:5])
        return "\n".join(txt) + "\n", [r[5] for r in rows]

    def image(self, nprng, noise=8.0, pedestal=1000.0, sigma=1.0, shape=None, dtype=">f4"):
        from scipy.special import erf
        ny, nx = shape or (self.inst.ny, self.inst.nx)
        im = np.full((ny, nx), pedestal)
        hw = 6
        a = 1 / (math.sqrt(2) * sigma)
        for px, py, c in zip(self.xpix, self.ypix, self.counts):
            i1, i0 = int(round(px)), int(round(py))
            lo1, hi1 = max(0, i1 - hw), min(nx, i1 + hw + 1)
            lo0, hi0 = max(0, i0 - hw), min(ny, i0 + hw + 1)
            if lo1 >= hi1 or lo0 >= hi0:
                continue
            g1 = 0.5 * (erf(a * (np.arange(lo1, hi1) + .5 - px)) - erf(a * (np.arange(lo1, hi1) - .5 - px)))
            g0 = 0.5 * (erf(a * (np.arange(lo0, hi0) + .5 - py)) - erf(a * (np.arange(lo0, hi0) - .5 - py)))
            im[lo0:hi0, lo1:hi1] += c * g0[:, None] * g1[None, :]
        if noise:
            im += nprng.normal(0, noise, im.shape)
        return im.astype(dtype)


def fits_bytes(hdus):
    """Minimal FITS writer: [(extname or None, 2-D array, header dict)]."""
    out = []

    def card(k, v):
        if isinstance(v, bool):
            s = "%20s" % ("T" if v else "F")
        elif isinstance(v, (int, np.integer)):
            s = "%20d" % v
        elif isinstance(v, float):
            s = "%20s" % repr(v).upper()
        else:
            s = ("'%-8s'" % v)
        return ("%-8s= %s" % (k, s)).ljust(80)[:80]

    def hdr(cards):
        h = "".join(cards) + "END".ljust(80)
        return (h + " " * (-len(h) % 2880)).encode()
    named = any(h[0] for h in hdus)
    if named:
        out.append(hdr([card("SIMPLE", True), card("BITPIX", 8), card("NAXIS", 0), card("EXTEND", True)]))
    for name, a, extra in hdus:
        a = np.asarray(a)
        if a.dtype.kind == "f":
            a = a.astype(">f4" if a.dtype.itemsize == 4 else ">f8")
            bp = -8 * a.dtype.itemsize
        elif a.dtype.itemsize == 2:
            a = a.astype(">i2")
            bp = 16
        else:
            a = a.astype(">i4")
            bp = 32
        c = [card("XTENSION", "IMAGE   ") if named else card("SIMPLE", True), card("BITPIX", bp),
             card("NAXIS", 2), card("NAXIS1", a.shape[1]), card("NAXIS2", a.shape[0])]
        if named:
            c += [card("PCOUNT", 0), card("GCOUNT", 1), card("EXTNAME", name)]
        for k, v in (extra or {}).items():
            c.append(card(k, v))
        b = a.tobytes()
        out.append(hdr(c) + b + b"\0" * (-len(b) % 2880))
    return b"".join(out)


def tiny(base=None, which=0):
    """A 45 mm patch with four fiducials: the fastest complete instrument."""
    c = [(-156.6, -339.7), (137.6, 359.1), (332.0, 185.4)][which]
    return MiniInstrument(base, rmax=45.0, center=c, name="tiny%d" % which)
