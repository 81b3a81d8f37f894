"""C20: qsonic-coadd uses every delta once and averages correctly."""
import contextlib
import io
import os
import sys

import healpy
import numpy as np

from qv import synth

RULE = ("random trees of 1-3 directories of delta files (1-7 extensions per "
        "target in any order over files, offset/overlapping/disjoint grids, "
        "steps 0.8/1/0.5 A, masked pixels and fully masked contributors, "
        "different resolution widths, blinded or not) run through the real "
        "program with 1-4 workers, nside 1-16, ring/nest; every output "
        "extension against the direct weighted mean; repeated with shuffled "
        "files, directories and rows; in-memory coadd of pairs and lists; "
        "distinct = (dirs, contributors, reso, step, nside, nest, workers)")
ASSUMPTIONS = ["all deltas of a target share the wavelength step and phase",
               "inputs hold either all or no resolution matrices",
               "CONT of pixels without weight is not specified"]
REQUIRED = {"runs": 20, "targets": 150, "multi": 60, "three_plus": 30,
            "single": 30, "masked_contrib": 500, "pixels": 8000,
            "reso": 30, "order": 20, "blind": 8, "mem": 60, "mem_many": 20,
            "gaps": 10, "nest": 5, "other_step": 10, "allmasked": 3,
            "mixed_diag": 10, "stale": 10, "large": 1, "no_files": 2}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return [{"kind": "run"}] * (36 * k) + [{"kind": "mem"}] * (110 * k)


def contributions(rng, tid, n, dw, reso, blind, ra, dec, far, mon):
    out = []
    base = 3600. + 200. * rng.integers(0, 3)
    for j in range(n):
        npx = int(rng.integers(4, 70))
        off = int(rng.integers(0, 60 if far else 25))
        d = synth.random_delta(
            rng, tid, npix=npx, dwave=dw, w0=base, ra=ra, dec=dec,
            p_mask=float(rng.choice([.05, .4])), lss=rng.uniform(.01, .6),
            meansnr=rng.uniform(.1, 5), ivar_scale=1.0 if rng.random() < .7
            else 10**rng.uniform(-4, 1.5, npx))
        d["wave"] = base + dw * (off + np.arange(npx))
        if rng.random() < .5:        # smoothed weights: not a function of i
            s = d["ivar"] * rng.uniform(.8, 1.2, npx)
            d["weight"] = s / (1 + s * rng.uniform(.05, .4))
        if rng.random() < .06:
            d["ivar"][:] = 0
            d["weight"][:] = 0
            d["delta"][:] = 0
        if rng.random() < .3:        # given no weight, though measured
            d["weight"][rng.random(npx) < .15] = 0
        if reso:
            nd = int(rng.choice([5, 7, 9])) if reso == "mixed" else 7
            d["reso"] = synth.random_reso(rng, nd, npx, "f8")
        d["extname"] = f"{tid}-{'BRZ'[j % 3]}-{j}"
        if blind:
            d["deltacol"] = "DELTA_BLIND"
            d["header"]["BLINDING"] = "desi_y3"
        out.append(d)
    return out


def reference(parts, dw):
    w0 = min(p["wave"][0] for p in parts)
    w1 = max(p["wave"][-1] for p in parts)
    n = int(round((w1 - w0) / dw)) + 1
    W, D, C, V, L, N = (np.zeros(n) for _ in range(6))
    cov = np.zeros(n, bool)
    nd = max((p["reso"].shape[0] for p in parts if p["reso"] is not None),
             default=0)
    R, RW = np.zeros((nd, n)), np.zeros(n)
    for p in parts:
        i0 = int(round((p["wave"][0] - w0) / dw))
        for k in range(p["wave"].size):
            w, i = p["weight"][k], p["ivar"][k]
            j = i0 + k
            cov[j] = True
            if nd:
                pad = (nd - p["reso"].shape[0]) // 2
                r = np.pad(p["reso"][:, k], (pad, pad))
                ww = w if w > 0 else 1e-8
                R[:, j] += ww * r
                RW[j] += ww
            if w <= 0 or i <= 0:
                continue
            N[j] += 1
            W[j] += w
            D[j] += w * p["delta"][k]
            C[j] += w * p["cont"][k]
            V[j] += w**2 / i
            L[j] += 1 - w / i
    ok = W > 0
    out = dict(wave=w0 + dw * np.arange(n), ok=ok, cov=cov, n=N)
    z = np.zeros(n)
    for nm, a in (("delta", D), ("cont", C), ("lss", L)):
        x = z.copy()
        x[ok] = a[ok] / W[ok]
        out[nm] = x
    iv = z.copy()
    iv[ok] = W[ok]**2 / V[ok]
    out["ivar"] = iv
    out["weight"] = iv / (1 + iv * out["lss"])
    if nd:
        R[:, RW > 0] /= RW[RW > 0]
        out["reso"] = R
    out["snr"] = (np.sqrt(iv) @ (out["delta"] + 1)) / max(1, (iv > 0).sum())
    return out


def judge(mon, g, parts, dw, wit):
    """g: dict wave delta ivar weight cont reso snr."""
    mon.count("masked_contrib", sum((p["ivar"] == 0).sum() for p in parts))
    mon.count("pixels", g["wave"].size)
    if len(parts) == 1:
        mon.count("single")
        p = parts[0]
        for q in ("wave", "delta", "ivar", "weight", "cont"):
            mon.equal(g[q], p[q], "single", f"{q} of a single contributor",
                      **wit)
        if p["reso"] is not None:
            mon.equal(g["reso"], p["reso"], "single", "reso", **wit)
        mon.close(g["snr"], p["header"]["MEANSNR"], "single", "MEANSNR")
        return
    mon.count("multi")
    mon.count("three_plus", len(parts) > 2)
    e = reference(parts, dw)
    mon.count("gaps", int((~e["cov"]).any()))
    mon.count("allmasked", int(not e["ok"].any()))
    ok = e["ok"]
    if not mon.check(g["wave"].size == e["wave"].size, "grid",
                     "number of pixels of the coadd", actual=g["wave"].size,
                     expected=e["wave"].size, **wit):
        return
    mon.close(g["wave"], e["wave"], "grid", "wavelength", rtol=1e-10, **wit)
    for q in ("delta", "ivar", "weight"):
        mon.close(g[q], e[q], q, f"coadded {q}", rtol=1e-8, atol=1e-10,
                  **wit)
    mon.close(g["cont"][ok], e["cont"][ok], "cont", "coadded continuum",
              rtol=1e-8, **wit)
    for q in ("delta", "ivar", "weight", "cont"):
        mon.finite(g[q], "finite", q, **wit)
    one = ok & (e["n"] == 1)
    # pixels with one contributor keep it
    for p in parts:
        i0 = int(round((p["wave"][0] - e["wave"][0]) / dw))
        s = slice(i0, i0 + p["wave"].size)
        m = one[s] & (p["ivar"] > 0) & (p["weight"] > 0)
        for q in ("delta", "ivar", "weight", "cont"):
            mon.close(g[q][s][m], p[q][m], "alone", f"{q} of a pixel with "
                      "one contributor", rtol=1e-8, atol=1e-10, **wit)
    if parts[0]["reso"] is not None:
        mon.count("reso")
        mon.count("mixed_diag", len({p["reso"].shape[0] for p in parts}) > 1)
        if mon.check(g["reso"] is not None, "reso", "resolution lost"):
            mon.close(g["reso"], e["reso"], "reso", "coadded resolution",
                      rtol=1e-8, atol=1e-12, **wit)
    mon.close(g["snr"], e["snr"], "snr", "MEANSNR", rtol=1e-8, atol=1e-12,
              **wit)


def run_program(argv):
    from qsonic.scripts import qsonic_coadd_deltas as m
    old = sys.argv
    sys.argv = ["qsonic-coadd"] + argv
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            m.main()
    finally:
        sys.argv = old


def as_dict(d, h):
    dn = "DELTA_BLIND" if "DELTA_BLIND" in d.dtype.names else "DELTA"
    return dict(wave=d["LAMBDA"], delta=d[dn], ivar=d["IVAR"],
                weight=d["WEIGHT"], cont=d["CONT"], snr=h["MEANSNR"],
                reso=d["RESOMAT"].T if "RESOMAT" in d.dtype.names else None)


def run_run(case, mon, rng, tmp):
    ndir = int(rng.integers(1, 4))
    large = bool(rng.random() < .08)
    ntar = 60 if large else int(rng.integers(1, 14))
    mon.count("large", large)
    dw = float(rng.choice([.8, .8, 1., .5]))
    reso = [None, "same", "mixed"][int(rng.integers(0, 3))]
    blind = bool(rng.random() < .3)
    far = bool(rng.random() < .5)
    nside = int(rng.choice([1, 2, 8, 16, 64, 128, 256]))
    nest = bool(rng.random() < .4)
    nproc = int(rng.integers(1, 5))
    truth = {}
    for t in synth.spread_targetids(rng, ntar):
        ra, dec = rng.uniform(0, 360), rng.uniform(-85, 85)
        truth[int(t)] = contributions(
            rng, int(t), int(rng.choice([1, 1, 2, 3, 5, 7, 14], p=[
                .17, .17, .18, .18, .15, .12, .03])), dw, reso,
            blind, ra, dec, far, mon)
    flat = [p for v in truth.values() for p in v]

    def layout(k):
        r = np.random.default_rng([case["seed"], k])
        dirs = [f"{tmp}/in{k}-{i}" for i in range(ndir)]
        files = {}
        names = ["0", "1", "12", "a", "3-main"]
        for i in r.permutation(len(flat)):
            f = f"{dirs[int(r.integers(0, ndir))]}/delta-" \
                f"{names[int(r.integers(0, 5))]}.fits"
            files.setdefault(f, []).append(flat[int(i)])
        for d in dirs:
            os.makedirs(d, exist_ok=True)
        for f, ps in files.items():
            synth.write_delta_file(f, ps)
        open(dirs[0] + "/notes.txt", "w").write("x")
        out = f"{tmp}/out{k}"
        os.makedirs(out)
        if k:
            # results of an earlier analysis are replaced
            mon.count("stale")
            for p in flat[:3]:
                pix = healpy.ang2pix(nside, np.pi / 2 - p["header"]["DEC"],
                                     p["header"]["RA"], nest=nest)
                synth.write_delta_file(f"{out}/delta-{pix}.fits", [
                    synth.random_delta(rng, p["header"]["TARGETID"],
                                       npix=9, dwave=dw)])
        order = [dirs[int(i)] for i in r.permutation(ndir)]
        argv = ["-i"] + order + ["-o", out, "--nside", str(nside),
                                 "--nproc", str(nproc)]
        run_program(argv + (["--nest"] if nest else []))
        return out

    wit = dict(ndir=ndir, dw=dw, reso=reso, nside=nside, nest=nest,
               nproc=nproc)
    mon.count("runs")
    mon.count("nest", nest)
    if case["seed"] % 4 == 0:
        os.makedirs(f"{tmp}/nothing")
        os.makedirs(f"{tmp}/nout")
        mon.count("no_files")
        mon.raises(lambda: run_program(
            ["-i", f"{tmp}/nothing", "-o", f"{tmp}/nout", "--nproc", "1"]),
            "no-files", "a directory without delta files is accepted")
        mon.equal(os.listdir(f"{tmp}/nout"), [], "no-files", "written files")
    mon.count("other_step", dw != .8)
    mon.state("run", ndir, dw, reso, nside, nest, nproc, blind)
    results = []
    for k in range(2):
        out = layout(k)
        seen = {}
        for fn in sorted(os.listdir(out)):
            for nm, h, d in synth.read_fits_tree(f"{out}/{fn}"):
                t = int(h["TARGETID"])
                mon.check(t not in seen, "once", "target written twice",
                          target=t, **wit)
                mon.check(t in truth, "once", "unknown target", target=t)
                if t not in truth:
                    continue
                seen[t] = as_dict(d, h)
                p = truth[t][0]
                pix = healpy.ang2pix(nside, np.pi / 2 - p["header"]["DEC"],
                                     p["header"]["RA"], nest=nest)
                mon.check(fn == f"delta-{pix}.fits", "hpx",
                          "target in the file of another HEALPix",
                          actual=fn, expected=int(pix), **wit)
                mon.close([h["RA"], h["DEC"]], [p["header"]["RA"],
                                                p["header"]["DEC"]],
                          "header", "position", rtol=1e-12)
                mon.count("blind", blind)
                mon.check(("DELTA_BLIND" in d.dtype.names) == blind,
                          "blind", "blinded state", **wit)
                mon.check(str(h["BLINDING"]).strip() == (
                    "desi_y3" if blind else "none"), "blind",
                    "blinding header", **wit)
        mon.check(set(seen) == set(truth), "once", "targets lost",
                  missing=sorted(set(truth) - set(seen)), **wit)
        mon.count("targets", len(seen))
        for t, g in seen.items():
            judge(mon, g, truth[t], dw, dict(n=len(truth[t]), **wit))
        results.append(seen)
    mon.count("order")
    a, b = results
    for t in set(a) & set(b):
        for q in ("delta", "ivar", "weight"):
            mon.close(b[t][q], a[t][q], "order", f"{q} depends on the order "
                      "of files and extensions", rtol=1e-8, atol=1e-10,
                      n=len(truth[t]), **wit)


def run_mem(case, mon, rng, tmp):
    from qsonic.io import read_deltas
    dw = float(rng.choice([.8, .8, 1., .5]))
    reso = [None, "same", "mixed"][int(rng.integers(0, 3))]
    many = bool(rng.random() < .4)
    n = int(rng.integers(3, 7)) if many else 2
    parts = contributions(rng, 77, n, dw, reso, False, 10., 5.,
                          bool(rng.random() < .4), mon)
    if rng.random() < .12:
        for p in parts:
            for q in ("ivar", "weight", "delta"):
                p[q][:] = 0
    fn = tmp + "/delta-0.fits"
    synth.write_delta_file(fn, parts)
    objs = read_deltas(fn)
    mon.count("mem")
    mon.count("mem_many", many)
    mon.count("other_step", dw != .8)
    mon.state("mem", n, dw, reso)
    before = [{q: getattr(o, q).copy() for q in (
        "wave", "delta", "ivar", "weight", "cont")} for o in objs]
    if many:
        objs[0].coadd(objs[1:])
    else:
        objs[0].coadd(objs[1])
    for o, b in list(zip(objs, before))[1:]:
        for q in b:
            mon.equal(getattr(o, q), b[q], "frame", "coadding changed the "
                      "other delta's " + q)
    o = objs[0]
    g = dict(wave=o.wave, delta=o.delta, ivar=o.ivar, weight=o.weight,
             cont=o.cont, reso=o.reso, snr=o.mean_snr)
    judge(mon, g, parts, dw, dict(n=n, dw=dw, reso=reso))
    mon.close(o.header["MEANSNR"], o.mean_snr, "snr", "header MEANSNR",
              rtol=1e-12)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    {"run": run_run, "mem": run_mem}[case["kind"]](case, mon, rng, tmp)
    mon.seen()
