"""Synthetic catalogues, spectra trees and delta files, with kept truth."""
import os

import fitsio
import numpy as np

DTYPE_CAT = "i8"


def makedirs(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)


def write_table(path, cols, extname=None, header=None, mode="new",
                clobber=True):
    """cols: dict name -> array (ordered)."""
    names = list(cols)
    n = len(next(iter(cols.values())))
    dt = []
    for k in names:
        a = np.asarray(cols[k])
        dt.append((k, a.dtype.str if a.dtype.kind != "U"
                   else f"S{max(1, a.dtype.itemsize // 4)}", a.shape[1:]))
    arr = np.zeros(n, dtype=dt)
    for k in names:
        a = np.asarray(cols[k])
        arr[k] = a.astype("S") if a.dtype.kind == "U" else a
    with fitsio.FITS(path, "rw", clobber=clobber) as f:
        f.write(arr, extname=extname, header=header)
    return arr


def write_image(fts, img, extname, header=None):
    fts.write(img, extname=extname, header=header)


def grid(rng, arms=("B", "R"), dwave=0.8, w0=3600.0, npix=None, overlap=None):
    """Aligned arm grids.  Returns dict arm -> wave (f8)."""
    out = {}
    start = 0
    for i, arm in enumerate(arms):
        n = npix[arm] if npix else int(rng.integers(60, 120))
        out[arm] = np.round(w0 + dwave * (start + np.arange(n)), 6)
        ov = overlap if overlap is not None else int(rng.integers(-8, 20))
        start = start + n - ov
    return out


def spread_targetids(rng, n, big=True):
    """Unique ids whose sorted order is unrelated to generation order."""
    if big and rng.random() < .25:
        # neighbours that differ in the last bits only
        return int(rng.integers(2**55, 2**60)) + rng.permutation(n).astype(
            "i8")
    if big and rng.random() < .12:
        # same object number in different bricks: equal last bits
        return int(rng.integers(1, 2**32)) + rng.permutation(n).astype(
            "i8") * 2**int(rng.choice([32, 40]))
    hi = 2**60 if big else 10**6
    ids = set()
    while len(ids) < n:
        ids.add(int(rng.integers(1, hi)))
    ids = np.array(list(ids), dtype="i8")
    rng.shuffle(ids)
    return ids


def random_pixels(rng, n, p_mask=0.1, p_zero=0.05, p_bad=0.03, dtype="f4"):
    """flux, ivar, mask arrays with hostile entries."""
    flux = rng.normal(2.0, 1.0, n).astype(dtype)
    ivar = rng.uniform(0.5, 4.0, n).astype(dtype)
    mask = np.where(rng.random(n) < p_mask,
                    rng.integers(1, 2**20, n), 0).astype("i4")
    ivar[rng.random(n) < p_zero] = 0
    flux[rng.random(n) < p_bad] = np.nan
    ivar[rng.random(n) < p_bad] = np.nan
    ivar[rng.random(n) < p_bad] = -1.0
    return flux, ivar, mask


def random_reso(rng, ndiag, n, dtype="f4"):
    x = np.arange(ndiag) - ndiag // 2
    s = rng.uniform(0.8, 1.8, n)
    r = np.exp(-0.5 * (x[:, None] / s[None, :])**2)
    r /= r.sum(0)
    return r.astype(dtype)


FBR = ["PETAL_LOC", "FIBER", "NIGHT", "EXPID", "TILEID"]


def write_spec_file(path, wave, rows, reso=True):
    """rows: list of dict(TARGETID, flux{}, ivar{}, mask{}, reso{}, FBR..)."""
    makedirs(path)
    fbr = {"TARGETID": np.array([r["TARGETID"] for r in rows], dtype="i8")}
    for k in FBR:
        if rows and k in rows[0]:
            fbr[k] = np.array([r[k] for r in rows], dtype="i4")
    with fitsio.FITS(path, "rw", clobber=True) as f:
        arr = np.zeros(len(rows), dtype=[(k, v.dtype.str)
                                         for k, v in fbr.items()])
        for k, v in fbr.items():
            arr[k] = v
        f.write(arr, extname="FIBERMAP")
        for arm, w in wave.items():
            f.write(w, extname=f"{arm}_WAVELENGTH")
            for q in ("flux", "ivar", "mask"):
                f.write(np.array([r[q][arm] for r in rows]),
                        extname=f"{arm}_{q.upper()}")
            if reso:
                f.write(np.array([r["reso"][arm] for r in rows]),
                        extname=f"{arm}_RESOLUTION")


def write_truth_file(path, wave, reso, cont_ids, cont, w1, dw):
    """Mock truth file: 2D resolution per arm, TRUE_CONT table."""
    makedirs(path)
    with fitsio.FITS(path, "rw", clobber=True) as f:
        if cont is not None:
            arr = np.zeros(len(cont_ids), dtype=[
                ("TARGETID", "i8"), ("TRUE_CONT", "f4", (cont.shape[1],))])
            arr["TARGETID"] = cont_ids
            arr["TRUE_CONT"] = cont
            f.write(arr, extname="TRUE_CONT", header={
                "WMIN": w1, "WMAX": w1 + dw * (cont.shape[1] - 1),
                "DWAVE": dw})
        for arm in wave:
            if reso is not None:
                f.write(reso[arm], extname=f"{arm}_RESOLUTION")


def mock_paths(d, pix):
    return (f"{d}/{pix // 100}/{pix}/spectra-16-{pix}.fits",
            f"{d}/{pix // 100}/{pix}/truth-16-{pix}.fits")


def data_path(d, survey, pix, kind="coadd", program="dark"):
    return (f"{d}/{survey}/{program}/{pix // 100}/{pix}/"
            f"{kind}-{survey}-{program}-{pix}.fits")


def tile_path(d, tile, night, petal):
    return f"{d}/{tile}/{night}/coadd-{petal}-{tile}-thru{night}.fits"


def write_delta_file(path, deltas):
    """deltas: list of dicts with wave, delta, ivar, weight, cont, reso|None,
    header dict, extname, columns overrides."""
    makedirs(path)
    if os.path.exists(path):
        os.remove(path)
    with fitsio.FITS(path, "rw", clobber=True) as f:
        for d in deltas:
            names = [d.get("wavecol", "LAMBDA"), d.get("deltacol", "DELTA"),
                     "IVAR", "WEIGHT", "CONT"]
            cols = [d["wave"], d["delta"], d["ivar"], d["weight"], d["cont"]]
            if d.get("reso") is not None:
                names.append("RESOMAT")
                cols.append(np.ascontiguousarray(d["reso"].T))
            for k, v in d.get("decoys", {}).items():
                j = 0 if d.get("decoys_first") else len(names)
                names.insert(j, k)
                cols.insert(j, v)
            f.write(cols, names=names, header=d["header"],
                    extname=d.get("extname"))


def random_delta(rng, targetid, w0=3600.0, dwave=0.8, npix=60, snr=2.0,
                 reso=False, ra=None, dec=None, p_mask=0.1, ivar_scale=None,
                 lss=0.1, meansnr=None, extra=None):
    wave = np.round(w0 + dwave * np.arange(npix), 6)
    cont = rng.uniform(1, 3) * (1 + 0.1 * np.sin(wave / 37.0))
    iv = rng.uniform(0.3, 3.0, npix) * (
        ivar_scale if ivar_scale is not None else 1.0)
    iv[rng.random(npix) < p_mask] = 0
    delta = rng.normal(0, 0.4, npix)
    delta[iv == 0] = 0
    weight = iv / (1 + iv * lss)
    hdr = {"LOS_ID": int(targetid), "TARGETID": int(targetid),
           "RA": float(np.radians(rng.uniform(0, 360) if ra is None else ra)),
           "DEC": float(np.radians(
               rng.uniform(-60, 60) if dec is None else dec)),
           "Z": float(rng.uniform(2, 3)), "BLINDING": "none",
           "WAVE_SOLUTION": "lin",
           "MEANSNR": float(snr if meansnr is None else meansnr),
           "RSNR": 1.0, "DELTA_LAMBDA": float(dwave), "SMSCALE": 16.0}
    hdr.update(extra or {})
    return dict(wave=wave, delta=delta, ivar=iv, weight=weight, cont=cont,
                reso=random_reso(rng, 5, npix, "f8") if reso else None,
                header=hdr, extname=f"{targetid}-brz")


def read_fits_tree(path):
    """All HDUs of a FITS file -> list of (extname, header dict, data)."""
    out = []
    with fitsio.FITS(path) as f:
        for h in f[1:]:
            out.append((h.get_extname(), dict(h.read_header()), h.read()))
    return out
