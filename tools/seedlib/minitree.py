"""A small input tree for qsonic-fit (data format) and a run of the program
in this process.  Import qshim first."""
import os
import sys

import fitsio
import numpy as np

DW = 2.0
WAVE = {"B": 3560. + DW * np.arange(230), "R": 4010. + DW * np.arange(600)}
R1, R2, W1, W2 = 1040., 1200., 3600., 4400.


def spectrum(rng, z, amp=2., snr=None, slope=.05):
    out = {"flux": {}, "ivar": {}, "mask": {}}
    lev = amp * (10**rng.uniform(-1.3, -.1) if snr is None else 1 / snr)
    for a, w in WAVE.items():
        sig = lev * 10**rng.uniform(-.3, .3, w.size)
        rf = w / (1 + z)
        c = amp * (1 + .2 * np.sin(rf / 35)) * (1 + slope * (rf - 1120) / 80)
        d = np.where(rf < 1215, rng.normal(0, .3, w.size), 0)
        out["flux"][a] = (c * (1 + d) + sig * rng.normal(0, 1, w.size)
                          ).astype("f4")
        out["ivar"][a] = (sig**-2).astype("f4")
        out["mask"][a] = np.zeros(w.size, "i4")
    return out


def quasars(n=60, seed=1, pixels=(101, 102, 203), survey="main",
            night=20210101):
    rng = np.random.default_rng(seed)
    q = []
    for k in range(n):
        z = float(rng.uniform(2.1, 3.0))
        d = dict(TARGETID=1000 + 7 * k, Z=z, RA=float(10 + k), DEC=5.,
                 HPXPIXEL=pixels[k % len(pixels)], SURVEY=survey,
                 LASTNIGHT=night)
        d.update(spectrum(rng, z))
        q.append(d)
    return q


def write_spec(path, rows, extra=()):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fm = np.zeros(len(rows), dtype=[("TARGETID", "i8")] + [
        (k, "i4") for k in extra])
    for k in ("TARGETID",) + tuple(extra):
        fm[k] = [r[k] for r in rows]
    with fitsio.FITS(path, "rw", clobber=True) as f:
        f.write(fm, extname="FIBERMAP")
        for a, w in WAVE.items():
            f.write(w, extname=f"{a}_WAVELENGTH")
            for k in ("flux", "ivar", "mask"):
                f.write(np.array([r[k][a] for r in rows]),
                        extname=f"{a}_{k.upper()}")


def write(root, q, exps=None, extracols=None):
    groups = {}
    for x in q:
        groups.setdefault((x["SURVEY"], x["HPXPIXEL"]), []).append(x)
    for (s, p), rows in groups.items():
        d = f"{root}/in/{s}/dark/{p // 100}/{p}"
        write_spec(f"{d}/coadd-{s}-dark-{p}.fits", rows)
        if exps:
            e = [r for r in exps if r["HPXPIXEL"] == p and r["SURVEY"] == s]
            write_spec(f"{d}/spectra-{s}-dark-{p}.fits", e, extra=(
                "PETAL_LOC", "FIBER", "NIGHT", "EXPID", "TILEID"))
    dt = [("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"), ("DEC", "f8"),
          ("HPXPIXEL", "i8"), ("SURVEY", "S8"), ("LASTNIGHT", "i4")]
    c = np.zeros(len(q), dtype=dt)
    for k, _ in dt:
        c[k] = [x[k] for x in q]
    with fitsio.FITS(f"{root}/cat.fits", "rw", clobber=True) as f:
        f.write(c, extname="ZCATALOG")


def run(root, *opts, out="out", surveys=("main",)):
    """Exit code of qsonic-fit (0: ok)."""
    from qsonic.picca_continuum import VarLSSFitter
    from qsonic.scripts import qsonic_fit
    VarLSSFitter.min_num_pix, VarLSSFitter.min_num_qso = 5, 2
    os.makedirs(f"{root}/{out}", exist_ok=True)
    old = sys.argv
    sys.argv = [str(x) for x in [
        "qsonic-fit", "-i", f"{root}/in", "--catalog", f"{root}/cat.fits",
        "-o", f"{root}/{out}", "--wave1", W1, "--wave2", W2, "--forest-w1",
        R1, "--forest-w2", R2, "--rfdwave", 8, "--arms", "B", "R",
        "--skip-resomat", "--num-iterations", 2, "--keep-surveys", *surveys,
        *opts]]
    try:
        qsonic_fit.main()
    except SystemExit as e:
        return e.code or 0
    finally:
        sys.argv = old
    return 0


def deltas(root, out="out"):
    """name -> (file, header, table)"""
    res = {}
    for f in sorted(os.listdir(f"{root}/{out}")):
        if f.startswith("delta-"):
            with fitsio.FITS(f"{root}/{out}/{f}") as ft:
                for h in ft[1:]:
                    res[h.get_extname()] = (f, dict(h.read_header()),
                                            h.read())
    return res


def chi2(root, out="out"):
    return fitsio.read(f"{root}/{out}/continuum_chi2_catalog.fits",
                       ext="CHI2_CAT")
