"""Complete synthetic input trees for the fitting program, with an
independent reference of what each spectrum should look like after reading,
cutting, calibrating, masking and coadding."""
import hashlib
import os

import fitsio
import numpy as np

from qv import ref, synth
from checks.c06 import sky_windows, write_sky
from checks.c07 import voigt_tau, write_dla
from checks.c08 import flux_file, linear, noise_file, spline

LYA = 1215.67
R1, R2 = 1040., 1200.
W1, W2 = 3600., 4400.
# forest, wavelength range (forest widths are multiples of 8)
GEOMETRIES = [(1040., 1200., 3600., 4400.), (1048., 1192., 3580., 4520.),
              (1280., 1440., 3600., 4400.), (920., 1016., 3600., 4400.)]


def set_geometry(k):
    """Another analysis region for this process (every case has its own)."""
    global R1, R2, W1, W2
    R1, R2, W1, W2 = GEOMETRIES[k]


def tree_hash(root):
    h = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                h[os.path.relpath(p, root)] = hashlib.sha1(
                    fh.read()).hexdigest()
    return h


def mean_shape(rf):
    return 1 + .25 * np.sin((rf - 1040) / 35.) + .1 * np.cos(rf / 11.)


class World:
    def __init__(self, rng, root, mode="data", n=36, exposures=False,
                 reso=False, npix=6, surveys=("main",), truth=False, dw=None,
                 nights=None, bal=False, hostile=True, nightof=None,
                 nightcol="LASTNIGHT", zrange=None, kindof=None,
                 overlap=None, brk=4000):
        self.rng, self.root, self.mode = rng, str(root), mode
        self.reso, self.truth, self.nightcol = reso, truth, nightcol
        os.makedirs(self.root, exist_ok=True)
        self.indir = self.root + "/in"
        self.dw = dw = float(rng.choice([2.0, 2.4, 1.6]) if dw is None
                             else dw)
        # one common grid, arms overlap by a few pixels or leave a gap
        k1 = int((brk - W1) / dw)
        ov = int(rng.integers(-4, 15))
        if overlap:
            ov = overlap
        self.overlap = (k1 - ov, k1)
        k2 = int((4700 - W1) / dw)
        ov2 = int(rng.integers(0, 10))
        k3 = int((5300 - W1) / dw)
        w0 = W1 - 40
        g = w0 + dw * np.arange(k3 + int(40 / dw))
        self.wave = {"B": g[:k1], "R": g[k1 - ov:k2], "Z": g[k2 - ov2:]}
        self.wave = {a: np.round(w, 6) for a, w in self.wave.items()}
        ids = synth.spread_targetids(rng, n)
        pix = rng.choice(np.arange(50, 3000), npix, replace=False)
        self.q = []
        z1, z2 = W1 / R2 - 1, W2 / R1 - 1
        if zrange is None:
            zrange = (z1 + .08 * (z2 - z1), z1 + .81 * (z2 - z1))
        for k in range(n):
            z = float(rng.uniform(*zrange))
            if rng.random() < .12:
                z = float(z1 + (z2 - z1) * rng.choice([-.25, 1.3, .02, .98]))
            q = dict(TARGETID=int(ids[k]), Z=z,
                     RA=float(rng.uniform(0, 360)),
                     DEC=float(rng.uniform(-60, 60)),
                     HPXPIXEL=int(pix[k % npix]),
                     SURVEY=str(rng.choice(list(surveys) + ["other"]
                                           if rng.random() < .15
                                           else list(surveys))),
                     LASTNIGHT=int(rng.choice(nights or [20210101,
                                                         20210102])),
                     PETAL_LOC=int(rng.integers(0, 3)),
                     TILEID=int(pix[k % npix]) + 7000, kind="good",
                     present=True)
            u = rng.random()
            if hostile and u < .06:
                q["kind"] = "negative"
            elif hostile and u < .12:
                q["kind"] = "weak"
            elif hostile and u < .20:
                q["kind"] = "masked"
            elif hostile and u < .26:
                q["kind"] = "armless"
            elif hostile and u < .31:
                q["present"] = False
            elif overlap and u < .5:
                q["kind"] = "overlap"
                q["pad"] = int(rng.integers(0, 40))
                # the arms meet in the middle of the forest
                q["Z"] = float(g[k1] / rng.uniform(
                    .7 * R1 + .3 * R2, .3 * R1 + .7 * R2) - 1)
            if kindof is not None:
                q["kind"] = kindof(q, [int(x) for x in pix]) or q["kind"]
            if mode == "tile":
                # files are named after the night of the tile
                q["LASTNIGHT"] = 20210100 + q["TILEID"] % 20
            if nightof is not None:
                q["LASTNIGHT"] = int(nightof(q))
            nb = 3
            q["BAL"] = np.zeros((4, nb))
            if bal and rng.random() < .5:
                for i in range(int(rng.integers(1, nb + 1))):
                    a = rng.uniform(500, 15000)
                    q["BAL"][:2, i] = a, a + rng.uniform(300, 3000)
                if rng.random() < .4:
                    a = rng.uniform(500, 15000)
                    q["BAL"][2:, 0] = a, a + rng.uniform(300, 3000)
            q["amp"] = float(10**rng.uniform(-.4, 1.3))
            q["slope"] = float(rng.normal(0, .15))
            self.data(q)
            self.q.append(q)
        self.byid = {q["TARGETID"]: q for q in self.q}
        self.bal = bal
        self.write(exposures)
        self.catalog = self.root + "/cat.fits"
        self.write_catalog()
        self.dla = {}

    # ---- data -----------------------------------------------------------
    def true_cont(self, q, w):
        rf = w / (1 + q["Z"])
        return q["amp"] * mean_shape(rf) * (
            1 + q["slope"] * (rf - 1120) / 80)

    def one(self, q, scale=1.0):
        rng = self.rng
        out = {"flux": {}, "ivar": {}, "mask": {}, "reso": {}}
        lev = 10**rng.uniform(-1.3, .0) * q["amp"] * scale
        f1 = self.true_cont(q, np.array([W1, W2])) * 0
        for a, w in self.wave.items():
            n = w.size
            sig = lev * 10**rng.uniform(-.25, .25, n)
            rf = w / (1 + q["Z"])
            c = self.true_cont(q, w)
            d = np.where(rf < max(LYA, R2), rng.normal(0, .25, n), 0)
            f = c * (1 + d) + sig * rng.normal(0, 1, n)
            if q["kind"] == "negative":
                f = -np.abs(f)
            if q["kind"] == "weak":
                f = f * .02
            m = (rng.random(n) < .04).astype("i4") * int(rng.integers(1, 99))
            iv = sig**-2
            iv[rng.random(n) < .02] = 0
            if q["kind"] == "masked":
                k = rng.random(n) < .75
                m[k] = 4
            if q["kind"] == "overlap":
                k1, k2 = np.searchsorted(w, self.wave["R"][0]), \
                    np.searchsorted(w, self.wave["B"][-1], side="right")
                k1, k2 = max(0, k1 - q["pad"]), k2 + q["pad"]
                k = (np.arange(n) < k1) | (np.arange(n) >= k2)
                m[k & (rf < LYA)] = 8
            if q["kind"] == "armless" and a == q.setdefault(
                    "lost", str(rng.choice(["B", "R"]))):
                m[:] = 1
            f, iv = f.astype("f4"), iv.astype("f4")
            f[rng.random(n) < .01] = np.nan
            iv[rng.random(n) < .005] = np.nan
            iv[rng.random(n) < .005] = -1
            out["flux"][a], out["ivar"][a], out["mask"][a] = f, iv, m
            if self.reso and self.mode != "mock":
                out["reso"][a] = synth.random_reso(rng, 5, n)
        return out

    def data(self, q):
        q.update(self.one(q))

    def rows(self, qs):
        rows = []
        for q in qs:
            r = {k: q[k] for k in ("TARGETID", "flux", "ivar", "mask",
                                   "reso")}
            rows.append(r)
        # targets of other programs are in the files too
        for _ in range(int(self.rng.integers(0, 3))):
            d = dict(TARGETID=int(self.rng.integers(2**60, 2**61)),
                     Z=2.5, kind="good", amp=2., slope=0.)
            d.update(self.one(d))
            rows.append({k: d[k] for k in ("TARGETID", "flux", "ivar",
                                           "mask", "reso")})
        o = self.rng.permutation(len(rows))
        return [rows[i] for i in o]

    def write(self, exposures):
        groups = {}
        for q in self.q:
            if self.mode == "data":
                key = synth.data_path(self.indir, q["SURVEY"], q["HPXPIXEL"])
            elif self.mode == "mock":
                key = synth.mock_paths(self.indir, q["HPXPIXEL"])[0]
            else:
                key = synth.tile_path(self.indir, q["TILEID"],
                                      q["LASTNIGHT"], q["PETAL_LOC"])
            groups.setdefault(key, []).append(q)
        for path, qs in groups.items():
            rows = self.rows([q for q in qs if q["present"]])
            if not rows:
                d = dict(TARGETID=int(self.rng.integers(2**60, 2**61)),
                         Z=2.5, kind="good", amp=2., slope=0.)
                d.update(self.one(d))
                rows = [d]
            synth.write_spec_file(path, self.wave, rows,
                                  reso=self.reso and self.mode != "mock")
            if self.mode == "mock":
                tp = synth.mock_paths(self.indir, qs[0]["HPXPIXEL"])[1]
                rs = {a: synth.random_reso(self.rng, 5, w.size)
                      for a, w in self.wave.items()}
                for q in qs:
                    q["reso2d"] = rs
                w1, dw = 3500., 5.
                grid = w1 + dw * np.arange(400)
                o = self.rng.permutation(len(qs))
                tc = np.array([self.true_cont(qs[i], grid) for i in o])
                synth.write_truth_file(
                    tp, self.wave, rs,
                    np.array([qs[i]["TARGETID"] for i in o], "i8"), tc, w1,
                    dw)
                for j, i in enumerate(o):
                    qs[i]["truth"] = (w1, dw, tc[j].astype("f4")
                                      .astype("f8"))
        if not exposures:
            return
        self.exps = {}
        eid = int(self.rng.choice([5000, 99980, 312345]))
        for path, qs in groups.items():
            rows = []
            for q in qs:
                if not q["present"]:
                    continue
                for _ in range(int(self.rng.integers(1, 4))):
                    eid += int(self.rng.integers(1, 9))
                    src = q
                    if q["kind"] == "armless" and self.rng.random() < .6:
                        # the exposure has another (or every) arm
                        src = dict(q)
                        src["lost"] = str(self.rng.choice(["B", "R", "Z"]))
                    d = self.one(src, scale=1.6)
                    d.update(TARGETID=q["TARGETID"], EXPID=eid,
                             NIGHT=int(self.rng.choice([20210101,
                                                        20210102])),
                             PETAL_LOC=q["PETAL_LOC"],
                             FIBER=int(self.rng.integers(0, 5000)),
                             TILEID=int(self.rng.integers(0, 9999)))
                    rows.append(d)
                    self.exps.setdefault(q["TARGETID"], []).append(d)
            if not rows:
                d = dict(TARGETID=int(self.rng.integers(2**60, 2**61)),
                         Z=2.5, kind="good", amp=2., slope=0., EXPID=1,
                         NIGHT=1, PETAL_LOC=1, FIBER=1, TILEID=1)
                d.update(self.one(d))
                rows = [d]
            o = self.rng.permutation(len(rows))
            synth.write_spec_file(path.replace("coadd-", "spectra-"),
                                  self.wave, [rows[i] for i in o],
                                  reso=self.reso)

    def write_catalog(self):
        o = self.rng.permutation(len(self.q))
        qs = [self.q[i] for i in o]
        c = {"TARGETID": np.array([q["TARGETID"] for q in qs], "i8")}
        for k in ("Z", "RA", "DEC"):
            c[k] = np.array([q[k] for q in qs], "f8")
        c["HPXPIXEL"] = np.array([q["HPXPIXEL"] for q in qs], "i8")
        if self.mode != "mock":
            c["SURVEY"] = np.array([q["SURVEY"] for q in qs])
            c[self.nightcol] = np.array([q["LASTNIGHT"] for q in qs], "i4")
        if self.mode == "tile":
            c["TILEID"] = np.array([q["TILEID"] for q in qs], "i4")
            c["PETAL_LOC"] = np.array([q["PETAL_LOC"] for q in qs], "i4")
        if self.bal:
            for i, k in enumerate(("VMIN_CIV_450", "VMAX_CIV_450",
                                   "VMIN_CIV_2000", "VMAX_CIV_2000")):
                c[k] = np.array([q["BAL"][i] for q in qs])
        synth.write_table(self.catalog, c, extname="ZCATALOG")

    # ---- extra input files ----------------------------------------------
    def sky(self):
        rng, rows = self.rng, []
        for _ in range(int(rng.integers(1, 4))):
            a = rng.uniform(W1 - 20, W2)
            rows.append(("line", a, a + rng.uniform(3, 25), "OBS"))
        if rng.random() < .6:
            a = rng.uniform(R1, R2)
            rows.append(("rf", a, a + rng.uniform(1, 8), "RF"))
        if rng.random() < .35:
            # an arm of some of the quasars does not survive this
            b, d = self.wave["R"][0], rng.uniform(30, 110)
            if rng.random() < .5:
                rows.append(("arm", b - 1, b + d, "OBS"))
            else:
                rows.append(("arm", b - d, self.wave["B"][-1] + 1, "OBS"))
        self.sky_rows = rows
        p = self.root + "/sky.txt"
        write_sky(p, rows, rng)
        return p

    def dlas(self):
        rng, rows = self.rng, []
        self.dla = {}
        allw = np.concatenate(list(self.wave.values()))
        for q in self.q:
            if rng.random() > .35:
                continue
            for _ in range(30):
                k = int(rng.integers(1, 3))
                ds = [(float(rng.uniform(1.9, max(q["Z"], 2.))),
                       float(rng.uniform(19.5, 21.2))) for _ in range(k)]
                T = self.dla_T(allw, ds)
                if np.all(np.abs(T - .8) > 4e-3):
                    self.dla[q["TARGETID"]] = ds
                    rows += [(q["TARGETID"],) + d for d in ds]
                    break
        for _ in range(5):
            rows.append((int(rng.integers(1, 2**59)), 2.3, 20.5))
        rows = [rows[i] for i in rng.permutation(len(rows))]
        p = self.root + "/dla.fits"
        write_dla(p, rows, str(rng.choice(["Z", "Z_DLA"])), rng, False)
        return p

    @staticmethod
    def dla_T(w, ds):
        tau = np.zeros(w.size)
        for z, nhi in ds:
            tau = tau + voigt_tau(w, z, nhi)
        return np.exp(-tau)

    def table_lam(self, step=100.):
        return np.arange(3500., 5400., step)

    def noise(self):
        lam = self.table_lam()
        self.eta_cal = self.rng.uniform(.7, 1.5, lam.size)
        self.vl_cal = self.rng.uniform(.005, .05, lam.size)
        p = self.root + "/noise.fits"
        noise_file(p, lam, self.eta_cal, self.vl_cal)
        return p

    def fluxcal(self):
        lam = self.table_lam(50.)
        self.st_cal = self.rng.uniform(.8, 1.25, lam.size)
        p = self.root + "/flux.fits"
        flux_file(p, lam, self.st_cal)
        return p

    def fiducial(self):
        lam = self.table_lam(40.)
        self.mf = np.exp(-.0036 * (lam / LYA)**3.4 / 2) * .9 + .05
        self.vl = self.rng.uniform(.02, .12, lam.size)
        p = self.root + "/fid.fits"
        synth.write_table(p, {"LAMBDA": lam, "MEANFLUX": self.mf,
                              "VAR_LSS": self.vl}, extname="STATS")
        return p

    def input_cont(self):
        import healpy
        d = self.root + "/icont"
        os.makedirs(d, exist_ok=True)
        rng = self.rng
        w1, dw = R1 - 40., 1.5
        grid = w1 + dw * np.arange(180)
        groups = {}
        self.icont = {}
        for q in self.q:
            p = int(healpy.ang2pix(8, q["RA"], q["DEC"], lonlat=True,
                                   nest=True))
            c = q["amp"] * mean_shape(grid) * (
                1 + q["slope"] * (grid - 1120) / 80)
            u = rng.random()
            if u < .08:
                continue
            if u < .14:
                c = c - 1.2 * c[70]
            c = c.astype("f4")
            self.icont[q["TARGETID"]] = (w1, dw, c.astype("f8"))
            groups.setdefault(p, []).append((q["TARGETID"], c))
        for p, lst in groups.items():
            lst = [lst[i] for i in rng.permutation(len(lst))]
            with fitsio.FITS(f"{d}/input-continuum-8-{p}.fits", "rw",
                             clobber=True) as f:
                fm = np.zeros(len(lst), dtype=[("TARGETID", "i8")])
                fm["TARGETID"] = [x[0] for x in lst]
                f.write(fm, extname="FIBERMAP")
                f.write(np.array([x[1] for x in lst]), extname="CONTINUA",
                        header={"WAVE1": w1, "DWAVE": dw})
        return d

    # ---- reference ------------------------------------------------------
    def prepare(self, q, d, o):
        """q: catalogue entry; d: pixel data; o: options (dict).
        Returns None if certainly cut, else dict(arms, rsnr, snr, sure)."""
        z = q["Z"]
        num, den = 0., 1e-6
        pix = {}
        for a in o["arms"]:
            w = self.wave[a]
            f = d["flux"][a].astype("f8")
            i = d["ivar"][a].astype("f8")
            bad = (d["mask"][a] != 0) | np.isnan(f) | np.isnan(i) | (i < 0)
            f[bad] = 0
            i[bad] = 0
            pix[a] = (w, f, i)
            k = w >= (1 + z) * LYA
            num += (f[k] * np.sqrt(i[k])).sum()
            den += (i[k] > 0).sum()
        rsnr = num / den
        l1, l2 = max(W1, (1 + z) * R1), min(W2, (1 + z) * R2)
        arms, reso = {}, {}
        for a, (w, f, i) in pix.items():
            k = (w >= l1) & (w < l2)
            if (i[k] > 0).any():
                arms[a] = [w[k].copy(), f[k].copy(), i[k].copy()]
                if o["reso"]:
                    R = d["reso"][a] if self.mode != "mock" else \
                        q["reso2d"][a]
                    reso[a] = R[:, k].astype("f8")
        sure = True
        if not arms:
            return None
        mr = o["min_rsnr"]
        if num == 0 and den < 1:        # no pixel redward: exactly zero
            if mr > 0:
                return None
        elif abs(rsnr - mr) < 1e-4 * max(1, abs(mr)):
            sure = False
        elif rsnr < mr:
            return None
        snr = {a: (np.sqrt(i) @ f) / (i > 0).sum()
               for a, (w, f, i) in arms.items()}
        if o["coadd"] == "before":
            from checks.c09 import reference
            b = reference({a: v[0] for a, v in arms.items()},
                          {a: v[1] for a, v in arms.items()},
                          {a: v[2] for a, v in arms.items()},
                          {a: v[2] for a, v in arms.items()},
                          reso or {}, self.dw)
            arms = {"brz": [b["wave"], b["flux"], b["ivar"]]}
            if reso:
                reso = {"brz": b["reso"]}
            i = arms["brz"][2]
            snr = {"brz": (np.sqrt(i) @ arms["brz"][1]) /
                   max(1, (i > 0).sum())}
        dlaq = np.zeros(0)
        for a, v in arms.items():
            w = v[0]
            if o.get("noise"):
                v[2] = v[2] / spline(self.table_lam(), self.eta_cal, w)
            if o.get("flux"):
                s = linear(self.table_lam(50.), self.st_cal, w)
                v[1] = v[1] / s
                v[2] = v[2] * s**2
            if o.get("sky"):
                for x1, x2 in [(r[1], r[2]) if r[3] == "OBS" else
                               (r[1] * (1 + z), r[2] * (1 + z))
                               for r in self.sky_rows]:
                    k = (w >= x1) & (w < x2)
                    v[1][k] = 0
                    v[2][k] = 0
            if o.get("bal"):
                for v1, v2 in zip(np.r_[q["BAL"][0], q["BAL"][2]],
                                  np.r_[q["BAL"][1], q["BAL"][3]]):
                    if v1 <= 0 or v2 <= 0:
                        continue
                    from qsonic.masks import BALMask
                    for L in BALMask.lines["value"]:
                        x2 = L * (1 + z) * (1 - v1 / 299792.458)
                        x1 = L * (1 + z) * (1 - v2 / 299792.458)
                        k = (w >= x1) & (w < x2)
                        v[1][k] = 0
                        v[2][k] = 0
            if o.get("dla") and q["TARGETID"] in self.dla:
                T = self.dla_T(w, self.dla[q["TARGETID"]])
                T[w >= (1 + z) * LYA] = 1
                k = T < .8
                v[1][k] = 0
                v[2][k] = 0
                T[k] = 1
                v[1] = v[1] / T
                v[2] = v[2] * T**2
        masked = o.get("sky") or o.get("bal") or o.get("dla")
        if masked:
            arms = {a: v for a, v in arms.items() if (v[2] > 0).any()}
        size = sum((v[2] > 0).sum() for v in arms.values())
        npx = (1 + z) * (R2 - R1) / self.dw
        if o["skip"]:
            if abs(size - o["skip"] * npx) < 1e-6:
                sure = False
            elif not size > o["skip"] * npx:
                return None
        if not arms:
            return None
        eff = sum(s**3 for s in snr.values()) / (
            1e-8 + sum(s**2 for s in snr.values()))
        ms = o["min_fsnr"]
        if abs(eff - ms) < 1e-4 * max(1, abs(ms)):
            sure = False
        elif eff < ms:
            return None
        return dict(arms={a: dict(wave=v[0], flux=v[1], ivar=v[2])
                          for a, v in arms.items()},
                    reso={a: reso[a] for a in arms if a in reso},
                    rsnr=rsnr, snr=snr, sure=sure, npx=npx, size=int(size))

    def in_catalog(self, q, o):
        tol = (R2 - R1) * o["skip"]
        zmin, zmax = W1 / (R2 - tol) - 1, W2 / (R1 + tol) - 1
        if not zmin <= q["Z"] <= zmax:
            return False
        if self.mode != "mock" and q["SURVEY"] not in o["surveys"]:
            return False
        return True

    def expected(self, o):
        """tid -> prepared spectrum, for everything that may be selected."""
        out = {}
        for q in self.q:
            if q["present"] and self.in_catalog(q, o):
                p = self.prepare(q, q, o)
                if p is not None:
                    out[q["TARGETID"]] = p
        return out


def options(rng, w, mode, **force):
    """Random options of the fitting program as (dict, argv)."""
    # (3 scale / dw is never close to an integer: the padding is decided)
    o = dict(arms=["B", "R"], coadd=str(rng.choice(["before", "after",
                                                    "disable"])),
             skip=float(rng.choice([.05, .2, .4])), min_rsnr=0.,
             min_fsnr=0., reso=w.reso, smooth=float(
                 rng.choice([0., 16.3, 8.1, 16.3, .7])), order=int(rng.integers(0, 3)),
             niter=int(rng.choice([1, 2, 3, 3, 5])), surveys=["main"])
    if rng.random() < .3:
        o["arms"] = ["B", "R", "Z"]
    if rng.random() < .15:
        o["arms"] = ["B"]
    if rng.random() < .4:
        o["min_rsnr"] = float(rng.choice([.5, 2., 4., -5.]))
    if rng.random() < .4:
        o["min_fsnr"] = float(rng.choice([.5, 2., 4., -5.]))
    for k, p in (("noise", .35), ("flux", .35), ("sky", .35), ("dla", .3),
                 ("additive", .3), ("norm", .3), ("eta", .4), ("etacal", .3),
                 ("cov", .2), ("fid_mf", .4), ("fid_vl", .4), ("hpx", .5)):
        o[k] = bool(rng.random() < p)
    o["bal"] = w.bal and bool(rng.random() < .7)
    o["model"] = "picca"
    o["mini"] = str(rng.choice(["iminuit", "iminuit", "l_bfgs_b"]))
    o["exposures"] = "disable"
    o.update(force)
    if mode == "tile":
        o["hpx"] = False
    if o["model"] == "true":
        o["fid_mf"] = o["fid_vl"] = True
    if not o["noise"]:
        # the option has no effect without a noise calibration
        o["idle_additive"], o["additive"] = o["additive"], False
    return o


def argv(w, o, outdir):
    a = ["-i", w.indir, "--catalog", w.catalog, "-o", outdir,
         "--wave1", W1, "--wave2", W2, "--forest-w1", R1, "--forest-w2", R2,
         "--rfdwave", 8, "--arms", *o["arms"], "--coadd-arms", o["coadd"],
         "--skip", o["skip"], "--min-rsnr", o["min_rsnr"],
         "--min-forestsnr", o["min_fsnr"], "--smoothing-scale", o["smooth"],
         "--cont-order", o["order"], "--num-iterations", o["niter"],
         "--minimizer", o["mini"], "--exposures", o["exposures"],
         "--keep-surveys", *o["surveys"]]
    if w.mode == "mock":
        a += ["--mock-analysis"]
    if w.mode == "tile":
        a += ["--tile-format"]
    if not o["reso"]:
        a += ["--skip-resomat"]
    for k, f in (("norm", "--normalize-stacked-flux"),
                 ("eta", "--var-fit-eta"), ("etacal", "--eta-calib-ivar"),
                 ("cov", "--var-use-cov"), ("hpx", "--save-by-hpx")):
        if o[k]:
            a += [f]
    if o["noise"]:
        a += ["--noise-calibration", w.noise()]
    if o["additive"] or o.get("idle_additive"):
        a += ["--varlss-as-additive-noise"]
    if o["flux"]:
        a += ["--flux-calibration", w.fluxcal()]
    if o["sky"]:
        a += ["--sky-mask", w.sky()]
    if o["bal"]:
        a += ["--bal-mask"]
    if o["dla"]:
        a += ["--dla-mask", w.dlas()]
    if o["fid_mf"] or o["fid_vl"]:
        p = w.fiducial()
        if o["fid_mf"]:
            a += ["--fiducial-meanflux", p]
        if o["fid_vl"]:
            a += ["--fiducial-varlss", p]
    if o["model"] == "true":
        a += [["--true-continuum"], ["--continuum-model", "true"]][
            int(w.rng.integers(0, 2))]
    if o["model"] == "input":
        a += ["--input-continuum-dir", w.input_cont()]
    return [str(x) for x in a]


def read_out(outdir):
    """deltas: name -> (file, header, data); chi2 table; attributes."""
    deltas, dup = {}, []
    for f in sorted(os.listdir(outdir)):
        if not f.startswith("delta-"):
            continue
        with fitsio.FITS(f"{outdir}/{f}") as ft:
            for h in ft[1:]:
                nm = h.get_extname()
                if nm in deltas:
                    dup.append(nm)
                deltas[nm] = (f, dict(h.read_header()), h.read())
    chi2 = fitsio.read(f"{outdir}/continuum_chi2_catalog.fits",
                       ext="CHI2_CAT")
    attr = {}
    with fitsio.FITS(f"{outdir}/attributes.fits") as ft:
        for h in ft[1:]:
            nm = h.get_extname()
            if nm in attr:
                dup.append("attributes " + nm)
            attr[nm] = (h.read(), dict(h.read_header()))
    return deltas, dup, chi2, attr
