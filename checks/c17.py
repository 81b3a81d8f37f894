"""C17: delta files: exactly the valid spectra, exact contents, round trip."""
import os
from argparse import Namespace

import fitsio
import numpy as np
from numpy.lib.recfunctions import drop_fields

from qv import ref, specs, synth

RULE = ("random spectra (1-3 arms, valid/invalid, zero-S/N arms, with and "
        "without resolution and exposure columns, smoothed or not) saved by "
        "HEALPix or by process into fresh or stale directories, blinded or "
        "not; every extension, column and header value against the in-memory "
        "spectrum; random delta files (log/linear wavelength, three id keys, "
        "blinded, with/without resolution, gaps) read, rewritten and read "
        "again, and files with a missing column or key; distinct = "
        "(grouping, blinding, resolution, exposures, wave, id, missing)")
ASSUMPTIONS = ["continua of valid spectra are positive (C11, C12)"]
REQUIRED = {"extensions": 250, "absent_invalid": 60, "zero_snr": 25,
            "masked": 1000, "reso": 80, "nores": 40, "exposure": 60,
            "blinded": 60, "stale": 20, "no_outdir": 15, "refused": 40,
            "roundtrip": 250, "loglam": 50, "rejected": 60, "by_rank": 20,
            "by_hpx": 20, "headers": 2000, "reblind": 20, "negative_snr": 20, "large": 1, "two_names": 10}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return ([{"kind": "save"}] * (80 * k) + [{"kind": "trip"}] * (80 * k)
            + [{"kind": "refuse"}] * (20 * k))


STRUCT = ("XTENSION", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "PCOUNT",
          "GCOUNT", "TFIELDS", "EXTNAME", "COMMENT", "CHECKSUM", "DATASUM",
          "HISTORY", "", None)


def hdr(h):
    return {k: h[k] for k in h.keys() if k not in STRUCT and not any(
        k.startswith(p) for p in ("TTYPE", "TFORM", "TDIM", "TUNIT"))}


def make(rng, mon, n=None):
    """Spectra with continua, weights, and a random valid flag."""
    if n is None:
        n = int(rng.integers(3, 12)) if rng.random() < .9 else 60
        mon.count("large", n == 60)
    arms = ["B", "R", "Z"][:int(rng.integers(1, 4))]
    dwave = float(rng.choice([0.8, 1.0, 0.5]))
    wave = specs.grids(rng, arms, dwave)
    expid = bool(rng.random() < .4)
    cat = specs.catalog(rng, n, expid=expid)
    if expid and rng.random() < .6 and n > 2:
        cat["TARGETID"][1::2] = cat["TARGETID"][0]   # same target
    if expid and rng.random() < .3:
        cat["EXPID"][0] = 0
    if expid and rng.random() < .3:
        cat = drop_fields(cat, str(rng.choice(["NIGHT", "FIBER"])),
                          usemask=False)
    nd = {a: int(rng.choice([5, 7])) for a in arms}
    reso = bool(rng.random() < .6)
    dt = str(rng.choice(["f4", "f8"]))
    data = specs.data_dict(rng, wave, n, dt, reso=reso, ndiag=nd,
                           p_mask=float(rng.choice([.02, .3])))
    if rng.random() < .3 and n > 2:
        a = arms[-1]
        data["mask"][a][1] = 1
    amp = 1.0
    if rng.random() < .2:
        amp = 10**float(rng.uniform(-3, 3))
        mon.count("scaled")
        for a in arms:
            data["flux"][a] *= np.array(amp, dt)
            data["ivar"][a] /= np.array(amp**2, dt)
            # cosmic rays that were not masked
            w = rng.random(data["flux"][a].shape) < .01
            data["flux"][a][w] *= np.array(1e3, dt)
    sl = specs.build(cat, data)
    smooth = float(rng.choice([0, 16., 4.]))
    vl, et = rng.uniform(0, .4), rng.uniform(.7, 1.4)
    for s in sl:
        if rng.random() < .2 and s.forestwave:
            a = list(s.forestwave)[0]
            s.forestivar[a][:] = 0
            s.forestflux[a][:] = 0
            s.mean_snr[a] = 0
        elif rng.random() < .2 and s.forestwave:
            # noise can make the mean S/N of an arm negative
            a = list(s.forestwave)[-1]
            s.forestflux[a][:] = -np.abs(s.forestflux[a]) * .1
            s.mean_snr[a] = -abs(s.mean_snr[a]) * .1
            mon.count("negative_snr")
        if smooth and s.forestwave:
            s.set_smooth_forestivar(smooth)
        s.cont_params["valid"] = bool(rng.random() < .75)
        s.cont_params["cont"] = {
            a: amp * rng.uniform(.5, 3) * (1 + .3 * np.sin(w / 50.))
            for a, w in s.forestwave.items()}
        if s.cont_params["valid"]:
            s.set_forest_weight(lambda w: vl + 0 * w, lambda w: et + 0 * w)
    return sl, reso, expid, smooth


def expected_name(s, a):
    e = ""
    if "EXPID" in s.catrow.dtype.names:
        e = f"-{s.catrow['EXPID']}"
    return f"{s.targetid}-{a}{e}"


def judge_ext(mon, s, a, h, d, blinding, reso, smooth, wit):
    from qsonic.spectrum import Spectrum
    mon.count("extensions")
    names = [x.upper() for x in d.dtype.names]
    dn = "DELTA" if blinding == "none" else "DELTA_BLIND"
    exp = ["LAMBDA", dn, "IVAR", "WEIGHT", "CONT"] + ["RESOMAT"] * bool(reso)
    mon.check(sorted(names) == sorted(exp), "columns", "columns of the delta "
              "extension", actual=names, expected=exp, **wit)
    if not set(exp) <= set(names):
        return
    C = s.cont_params["cont"][a]
    f, i, w = (np.asarray(x[a], "f8") for x in (
        s.forestflux, s.forestivar, s.forestweight))
    mon.equal(d["LAMBDA"], s.forestwave[a], "arrays", "wavelength", **wit)
    mon.equal(d["CONT"], C, "arrays", "continuum", **wit)
    ok = i > 0
    mon.count("masked", (~ok).sum())
    mon.close(d["IVAR"], i * C**2, "arrays", "ivar", rtol=1e-6, **wit)
    mon.close(d["WEIGHT"], w * C**2, "arrays", "weight", rtol=1e-6, **wit)
    mon.close(d[dn][ok], f[ok] / C[ok] - 1, "arrays", "delta", rtol=1e-5,
              atol=1e-6, **wit)
    mon.check(np.all(d[dn][~ok] == 0), "arrays", "masked delta is not zero",
              **wit)
    mon.close(((1 + d[dn]) * d["CONT"])[ok], f[ok], "recover", "flux",
              rtol=1e-5, atol=1e-6, **wit)
    if reso:
        mon.count("reso")
        mon.equal(d["RESOMAT"], np.asarray(s.forestreso[a], "f8").T,
                  "arrays", "resolution", **wit)
        if w.sum() > 0 and s.forestreso[a].shape[0] >= 7:
            r = ref.mean_reso_kms(s.forestreso[a], s.forestwave[a], w,
                                  s.dwave)
            mon.close(h["MEANRESO"], r, "header", "MEANRESO", rtol=1e-4,
                      **wit)
    else:
        mon.count("nores")
    want = dict(TARGETID=int(s.targetid), LOS_ID=int(s.targetid),
                RA=np.radians(s.catrow["RA"]),
                DEC=np.radians(s.catrow["DEC"]), Z=float(s.catrow["Z"]),
                MEANSNR=float(s.mean_snr[a]), RSNR=float(s.rsnr),
                DELTA_LAMBDA=float(s.dwave), SMSCALE=smooth)
    for k in ("TILEID", "FIBER", "PETAL_LOC", "EXPID", "NIGHT"):
        if k in s.catrow.dtype.names:
            want[k] = int(s.catrow[k])
    H = {k.upper(): v for k, v in h.items() if k}
    for k, v in want.items():
        mon.count("headers")
        if isinstance(v, int):
            mon.check(H.get(k) == v, "header", f"header {k}",
                      actual=H.get(k), expected=v, **wit)
        else:
            mon.close(H.get(k, np.nan), v, "header", f"header {k}",
                      rtol=1e-10, **wit)
    mon.check(str(H.get("BLINDING")).strip() == blinding, "header",
              "blinding header", actual=H.get("BLINDING"),
              expected=blinding, **wit)


def run_save(case, mon, rng, tmp):
    from qsonic.io import save_deltas
    from qsonic.spectrum import Spectrum
    blinding, night = [("none", 20210101), ("desi_m2", 20210601),
                       ("desi_y1", 20220101), ("desi_y3", 20230101)][
                           int(rng.integers(0, 4))]
    args = Namespace(mock_analysis=False, forest_w1=1040.,
                     skip_resomat=True)
    # a previous analysis of the same process does not matter
    if rng.random() < .4:
        mon.count("reblind")
        args.skip_resomat = False
        Spectrum.set_blinding(int(rng.choice([20210101, 20230101])), args)
    sl, reso, expid, smooth = make(rng, mon)
    args.skip_resomat = not reso
    Spectrum.set_blinding(night, args)
    before = [specs.state(s) for s in sl]
    out = tmp + "/out"
    os.makedirs(out)
    byhpx = bool(rng.random() < .5)
    nrank = 1 if byhpx else int(rng.integers(1, 4))
    wit = dict(byhpx=byhpx, blinding=blinding, reso=reso, expid=expid)
    if rng.random() < .5:
        mon.count("stale")
        for g in range(6):
            synth.write_delta_file(f"{out}/delta-{g}.fits", [
                synth.random_delta(rng, 7, npix=5)])
    # no output directory
    mon.count("no_outdir")
    cwd = set(os.listdir("."))
    save_deltas(sl, None if rng.random() < .5 else "", save_by_hpx=byhpx,
                mpi_rank=0)
    mon.check(set(os.listdir(".")) == cwd, "no_outdir",
              "files written without an output directory")
    groups = {}
    if byhpx:
        mon.count("by_hpx")
        save_deltas(sl, out, save_by_hpx=True,
                    mpi_rank=None if rng.random() < .5 else 3)
        for s in sl:
            groups.setdefault(int(s.catrow["HPXPIXEL"]), []).append(s)
    else:
        mon.count("by_rank")
        for r in range(nrank):
            part = sl[r::nrank]
            save_deltas(part, out, mpi_rank=r)
            groups[r] = part
        if rng.random() < .4:       # a process without any spectrum
            mon.count("empty_rank")
            groups[nrank] = []
            try:
                save_deltas([], out, mpi_rank=nrank)
            except Exception as e:
                mon.check(False, "empty", "saving the empty list of a "
                          f"process fails: {type(e).__name__} {e}", **wit)
            if os.path.exists(f"{out}/delta-{nrank}.fits") and rng.random(
                    ) < .5:
                from qsonic.io import read_deltas
                mon.check(len(read_deltas(f"{out}/delta-{nrank}.fits")) == 0,
                          "empty", "deltas in the file of a process without "
                          "spectra", **wit)
    for s, b in zip(sl, before):
        specs.same_state(mon, b, specs.state(s), "frame", "saving changed "
                         "the spectrum")
    mon.state("save", byhpx, nrank, blinding, reso, expid, smooth > 0)
    for g, part in groups.items():
        fn = f"{out}/delta-{g}.fits"
        exp = {}
        for s in part:
            if not s.cont_params["valid"]:
                mon.count("absent_invalid")
                continue
            for a in s.forestwave:
                if s.mean_snr[a] == 0:
                    mon.count("zero_snr")
                    continue
                exp[expected_name(s, a)] = (s, a)
        mon.count("blinded", len(exp) * (blinding != "none"))
        mon.count("exposure", len(exp) * expid)
        if not mon.check(os.path.exists(fn) or not exp, "file",
                         "no file for the group", **wit):
            continue
        if not os.path.exists(fn):
            continue
        got = synth.read_fits_tree(fn)
        names = [x[0] for x in got]
        mon.check(sorted(names) == sorted(exp), "complete",
                  "extensions of the file are not exactly the valid spectra",
                  actual=sorted(names), expected=sorted(exp), **wit)
        for nm, h, d in got:
            if nm in exp:
                judge_ext(mon, *exp[nm], h, d, blinding, reso, smooth, wit)


def rand_file(rng):
    """Random delta descriptions."""
    out = []
    n = int(rng.integers(1, 7)) if rng.random() < .97 else int(
        rng.integers(70, 130))
    log = bool(rng.random() < .35)
    blind = bool(rng.random() < .4)
    reso = bool(rng.random() < .5)
    idk = str(rng.choice(["TARGETID", "MOCKID", "THING_ID"]))
    ids = synth.spread_targetids(rng, n)
    unit = float(10.**rng.integers(-9, 7)) if rng.random() < .3 else 1.
    # identifiers that rank lower may be there too
    keys = ["TARGETID", "MOCKID", "THING_ID"]
    lower = [x for x in keys[keys.index(idk) + 1:] if rng.random() < .3]
    for k in range(n):
        npx = int(rng.integers(5, 90)) if rng.random() < .8 else int(
            rng.integers(1, 5))
        d = synth.random_delta(rng, ids[k], npix=npx, reso=reso,
                               w0=float(rng.uniform(3500, 3700)),
                               dwave=float(rng.choice([.8, .437, 1.])),
                               meansnr=rng.uniform(.1, 9)
                               * rng.choice([1, 1, -.1]),
                               ivar_scale=unit)
        if rng.random() < .2:
            d["header"]["TILEID"] = int(rng.integers(0, 9999))
        if rng.random() < .1:
            d["delta"][rng.random(npx) < .05] = float(
                10**rng.uniform(1, 5) * rng.choice([-1, 1]))
        d["delta"][d["ivar"] == 0] = rng.choice([0, 5.])
        for q in ("TARGETID", "LOS_ID"):
            d["header"].pop(q)
        d["header"]["LOS_ID"] = int(ids[k])
        d["header"][idk] = int(ids[k])
        for x in lower:
            d["header"][x] = int(rng.integers(1, 10**6))
        d["header"]["EXTRA"] = str(rng.choice(["x", "abc"]))
        if blind:
            d["deltacol"] = "DELTA_BLIND"
            d["header"]["BLINDING"] = str(rng.choice(
                ["desi_y3", "desi_y1", "desi_m2"]))
        d["lin"] = d["wave"].copy()
        if log:
            d["wavecol"] = "LOGLAM"
            d["wave"] = np.log10(d["wave"])
        # names that rank lower may be there too
        d["decoys"], d["decoys_first"] = {}, bool(rng.random() < .5)
        if not log and rng.random() < .15:
            d["decoys"]["LOGLAM"] = np.log10(d["wave"] + 3.)
        if blind and rng.random() < .3:
            d["decoys"]["DELTA"] = d["delta"] * 2 + .1
        out.append(d)
    return out, log, blind, reso, idk


def judge_obj(mon, o, d, blind, reso, log, wit):
    mon.check(int(o.targetid) == d["header"]["LOS_ID"], "read",
              "target id", actual=o.targetid, **wit)
    z = d["delta"].copy()
    z[d["ivar"] == 0] = 0
    mon.close(o.wave, d["lin"], "read", "wavelength", rtol=1e-12, **wit)
    for q, e in (("delta", z), ("ivar", d["ivar"]), ("weight", d["weight"]),
                 ("cont", d["cont"])):
        mon.equal(getattr(o, q), e, "read", q, **wit)
    if reso:
        mon.check(o.reso is not None, "read", "resolution lost", **wit)
        mon.equal(o.reso, d["reso"], "read", "resolution", **wit)
    else:
        mon.check(o.reso is None, "read", "resolution invented", **wit)
    mon.close(o.mean_snr, d["header"]["MEANSNR"], "read", "MEANSNR",
              rtol=1e-12, **wit)
    mon.close(o.ra, np.degrees(d["header"]["RA"]), "read", "RA", rtol=1e-12)
    mon.close(o.dec, np.degrees(d["header"]["DEC"]), "read", "DEC",
              rtol=1e-12)


def run_trip(case, mon, rng, tmp):
    from qsonic.io import read_deltas
    desc, log, blind, reso, idk = rand_file(rng)
    fn = tmp + "/delta-1.fits"
    synth.write_delta_file(fn, desc)
    wit = dict(log=log, blind=blind, reso=reso, idk=idk)
    mon.state("trip", log, blind, reso, idk)
    for rnd in range(3):
        objs = read_deltas(fn)
        mon.count("roundtrip", len(objs))
        mon.count("loglam", len(objs) * log)
        mon.count("two_names", rnd == 0 and any(d["decoys"] for d in desc))
        if not mon.check(len(objs) == len(desc), "count",
                         "number of deltas read", round=rnd, **wit):
            return
        for o, d in zip(objs, desc):
            judge_obj(mon, o, d, blind, reso, log, dict(round=rnd, **wit))
        nfn = f"{tmp}/delta-{rnd + 2}.fits"
        with fitsio.FITS(nfn, "rw", clobber=True) as f:
            for o in objs:
                o.write(f)
        with fitsio.FITS(nfn) as f:
            mon.check(len(f) == len(desc) + 1, "count", "extensions written")
            for h, d in zip(f[1:], desc):
                cn = h.get_colnames()
                mon.check(("DELTA_BLIND" in cn) == blind
                          and ("DELTA" in cn) == (not blind), "blind",
                          "blinded state lost", actual=cn, **wit)
                H = hdr(h.read_header())
                for k, v in d["header"].items():
                    mon.count("headers")
                    mon.check(k in H and (H[k] == v or (
                        isinstance(v, float) and np.isclose(
                            H[k], v, rtol=1e-12))), "header",
                        f"header {k} not preserved", actual=H.get(k),
                        expected=v, round=rnd, **wit)
                mon.check(not set(H) - set(d["header"]), "header",
                          "header keys appeared", actual=sorted(H), **wit)
        fn = nfn
    # a file missing something required is rejected
    for miss in ("wave", "delta", "id"):
        mon.count("rejected")
        d = dict(desc[int(rng.integers(0, len(desc)))])
        d["header"] = dict(d["header"])
        d["decoys"] = {}
        d.pop("extname", None)
        if miss == "wave":
            d["wavecol"] = "WAVEX"
        elif miss == "delta":
            d["deltacol"] = "DELTAX"
        else:
            for x in ("TARGETID", "MOCKID", "THING_ID"):
                d["header"].pop(x, None)
            d["header"]["TARGETIX"] = 3
        fb = tmp + "/delta-bad.fits"
        bad = desc[:1] + [d] if rng.random() < .5 else [d]
        synth.write_delta_file(fb, bad)
        mon.raises(lambda: read_deltas(fb), "rejected",
                   f"file without {miss} accepted", types=(RuntimeError,),
                   **wit)


def run_refuse(case, mon, rng, tmp):
    from qsonic import QsonicException
    from qsonic.io import save_deltas
    from qsonic.spectrum import Spectrum
    sl, reso, expid, smooth = make(rng, mon)
    out = tmp + "/out"
    os.makedirs(out)
    sub = sl if rng.random() < .7 else []
    for kw in (dict(save_by_hpx=True), dict(mpi_rank=0)):
        mon.count("refused")
        mon.raises(lambda: save_deltas(sub, out, **kw), "refused",
                   "saved before the blinding is set",
                   types=(QsonicException,))
        mon.check(not os.listdir(out), "refused", "file written although "
                  "saving is refused", actual=os.listdir(out))
    Spectrum.set_blinding(None, Namespace(
        mock_analysis=True, forest_w1=1040., skip_resomat=not reso))
    mon.count("refused")
    mon.raises(lambda: save_deltas(sub, out), "refused",
               "saved without grouping", types=(QsonicException,))
    mon.check(not os.listdir(out), "refused", "file written although saving "
              "is refused", actual=os.listdir(out))
    mon.state("refuse", bool(sub), expid)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    {"save": run_save, "trip": run_trip, "refuse": run_refuse}[
        case["kind"]](case, mon, rng, tmp)
    mon.seen()
