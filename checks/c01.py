"""C01: catalogue reading against a row-level reference model."""
import os
import warnings

import fitsio
import numpy as np

from qv import fakempi, synth

RULE = ("random catalogues (row order, aliases, extra columns/HDUs, HEALPix "
        "present or not, surveys, redshift edges equal to row values) read "
        "with random options; a case is non-trivial when rows were both kept "
        "and compared, or an error was demanded; distinct = option/shape "
        "signature")
ASSUMPTIONS = ["healpy.ang2pix is trusted", "fitsio is trusted"]
REQUIRED = {"rows_compared": 2000, "rows_excluded": 500, "errors_demanded": 20,
            "healpix_computed": 200, "tile_reads": 5, "multi_survey": 5,
            "two_surveys_kept": 5, "large": 3, "several_hdus": 10}

SURVEYS = ["main", "sv1", "sv3", "special", "sv2", "sv", "main2", "sv12",
           "MAIN", "1"]
BALCOLS = ["VMIN_CIV_450", "VMAX_CIV_450", "VMIN_CIV_2000", "VMAX_CIV_2000"]


def cases(tier):
    n = 1000 if tier == "quick" else 10000
    e = 200 if tier == "quick" else 500
    m = 24 if tier == "quick" else 240
    return ([{"kind": "select"}] * n + [{"kind": "error"}] * e
            + [{"kind": "mpi"}] * m)


def gen(rng, is_mock, is_tile, nmax=60, nmin=1):
    n = int(rng.integers(nmin, nmin + nmax))
    cols = {}
    ids = synth.spread_targetids(rng, n, big=rng.random() < 0.7)
    order = ["TARGETID", "Z", "RA", "DEC"]
    cols["TARGETID"] = ids
    z = rng.uniform(1.8, 4.2, n)
    if rng.random() < 0.1:
        z = rng.uniform(-.3, 1., n)
    if rng.random() < 0.3:
        z = np.round(z, 1)
    if n > 4 and rng.random() < 0.3:
        z[rng.integers(n)] = np.nan
    cols["Z"] = z
    ra_name = rng.choice(["RA", "TARGET_RA", "both"])
    dec_name = rng.choice(["DEC", "TARGET_DEC", "both"])
    # cluster on the sky so that healpix groups are shared
    cen = rng.uniform(0, 360), rng.uniform(-70, 70)
    if rng.random() < 0.2:
        # on the meridian, near a pole
        cen = float(rng.choice([0., 359.97])), cen[1]
    if rng.random() < 0.1:
        cen = cen[0], float(rng.choice([-89.5, 89.5]))
    spread = rng.choice([0.2, 3.0, 50.0])
    ra = (cen[0] + rng.normal(0, spread, n)) % 360
    dec = np.clip(cen[1] + rng.normal(0, spread, n), -89.9, 89.9)
    if ra_name in ("RA", "both"):
        cols["RA"] = ra
    if ra_name in ("TARGET_RA", "both"):
        cols["TARGET_RA"] = ra + (5.0 if ra_name == "both" else 0.0)
    if dec_name in ("DEC", "both"):
        cols["DEC"] = dec
    if dec_name in ("TARGET_DEC", "both"):
        cols["TARGET_DEC"] = dec * (0.5 if dec_name == "both" else 1.0)
    if (not is_mock) or rng.random() < 0.2:
        k = int(rng.integers(1, 4))
        cols["SURVEY"] = rng.choice(rng.choice(SURVEYS, k, replace=False), n)
    if (not is_mock) or rng.random() < 0.2:
        names = ["LASTNIGHT", "COADD_LASTNIGHT", "LAST_NIGHT"]
        pick = [x for x in names if rng.random() < 0.5] or [
            str(rng.choice(names))]
        for j, x in enumerate(pick):
            cols[x] = rng.integers(20201201, 20230101, n).astype("i4") + j
    if is_tile:
        cols["TILEID"] = rng.integers(1, 4, n).astype("i4")
        cols["PETAL_LOC"] = rng.integers(0, 10, n).astype("i2")
        if n > 3 and rng.random() < 0.7:
            # same target on another tile is legal
            cols["TARGETID"][1] = cols["TARGETID"][0]
            cols["TILEID"][0], cols["TILEID"][1] = 1, 2
        if n > 4 and rng.random() < 0.4:
            # different pairs that are close to each other
            t = int(cols["TARGETID"][2]) + 1
            if t not in {int(x) for x in cols["TARGETID"]}:
                cols["TARGETID"][3] = t
                cols["TILEID"][2], cols["TILEID"][3] = 3, 2
    elif rng.random() < 0.15:
        cols["TILEID"] = rng.integers(1, 4, n).astype("i4")
    if rng.random() < 0.5:
        cols["HPXPIXEL"] = rng.integers(0, 12, n).astype("i8") * 37
    if rng.random() < 0.4:
        for c in BALCOLS:
            cols[c] = rng.uniform(-100, 5000, (n, 5)).astype("f4")
    if rng.random() < 0.3:
        cols["PROGRAM"] = np.array(["dark"] * n)
    if rng.random() < 0.5:
        cols["EXTRA_COL"] = rng.normal(size=n)
    keys = list(cols)
    rng.shuffle(keys)
    return {k: cols[k] for k in keys}


def write(rng, path, cols):
    """Catalogue HDU at some position with some name."""
    ext = str(rng.choice(["QSO_CAT", "ZCATALOG", "METADATA", "OTHER"]))
    arr = np.zeros(len(cols["TARGETID"]), dtype=[
        (k, f"S{np.asarray(v).astype('S').dtype.itemsize}"
         if np.asarray(v).dtype.kind == "U" else np.asarray(v).dtype.str,
         np.asarray(v).shape[1:]) for k, v in cols.items()])
    for k, v in cols.items():
        arr[k] = v
    # "First one is used": accepted names that rank lower may be there too
    rank = ["QSO_CAT", "ZCATALOG", "METADATA"]
    lower = []
    if ext in rank[:2] and rng.random() < .4:
        lower = [x for x in rank[rank.index(ext) + 1:] if rng.random() < .8]
    decoy = arr.copy()
    if "Z" in cols:
        decoy["Z"] = np.where(np.isnan(decoy["Z"]), 1., decoy["Z"] + .037)
    before = bool(rng.random() < .5)
    with fitsio.FITS(path, "rw", clobber=True) as f:
        if before:
            for x in lower:
                f.write(decoy, extname=x)
        later = ext != "OTHER" and rng.random() < 0.4
        if later:
            dummy = np.zeros(2, dtype=[("TARGETID", "i8"), ("Z", "f8")])
            f.write(dummy, extname="SOMETHING")
        f.write(arr, extname=ext)
        if not before:
            for x in lower:
                f.write(decoy, extname=x)
        if rng.random() < 0.3:
            f.write(np.zeros(1, dtype=[("A", "f8")]), extname="TAIL")
    return ext + "".join("+" + x for x in lower)


RECOGNISED = {"TARGETID", "Z", "RA", "DEC", "TARGET_RA", "TARGET_DEC",
              "SURVEY", "LASTNIGHT", "LAST_NIGHT", "COADD_LASTNIGHT",
              "TILEID", "PETAL_LOC", "HPXPIXEL", "PROGRAM"} | set(BALCOLS)


def expected(cols, is_mock, is_tile, keep, zmin, zmax):
    from healpy import ang2pix
    c = {k: np.asarray(v) for k, v in cols.items() if k in RECOGNISED}
    for x in ("RA", "DEC"):
        if x not in c:
            c[x] = c.pop("TARGET_" + x)
    if "LASTNIGHT" not in c:
        for x in ("COADD_LASTNIGHT", "LAST_NIGHT"):
            if x in c:
                c["LASTNIGHT"] = c.pop(x)
                break
    sel = []
    for i in range(len(c["TARGETID"])):
        ok = zmin <= c["Z"][i] <= zmax
        if "SURVEY" in c and keep is not None:
            ok = ok and str(c["SURVEY"][i]) in keep
        if ok:
            sel.append(i)
    c = {k: v[sel] for k, v in c.items()}
    computed = "HPXPIXEL" not in c
    if computed and sel:
        c["HPXPIXEL"] = np.array([
            ang2pix(16 if is_mock else 64, float(a), float(b), lonlat=True,
                    nest=True) for a, b in zip(c["RA"], c["DEC"])])

    def key(i):
        if is_tile:
            return (int(c["TILEID"][i]), int(c["PETAL_LOC"][i]),
                    int(c["TARGETID"][i]))
        s = str(c["SURVEY"][i]) if "SURVEY" in c else ""
        return int(c["HPXPIXEL"][i]), s, int(c["TARGETID"][i])
    order = sorted(range(len(sel)), key=key)
    return {k: v[order] for k, v in c.items()}, computed


def options(rng, cols, is_mock):
    z = np.asarray(cols["Z"])
    z = z[~np.isnan(z)]
    keep = None
    if rng.random() < (0.75 if not is_mock else 0.4):
        k = int(rng.integers(1, 4))
        keep = [str(x) for x in rng.choice(SURVEYS, k, replace=False)]
        if "SURVEY" in cols and rng.random() < 0.7:
            # mostly the surveys of the catalogue itself
            own = [str(x) for x in rng.permutation(sorted(set(map(
                str, cols["SURVEY"]))))][:int(rng.integers(1, 4))]
            if rng.random() < .7:
                keep = own + (keep[:1] if rng.random() < .3 else [])
            else:
                keep[0] = own[0]
            keep = list(dict.fromkeys(keep))
    kw = {}
    if rng.random() < 0.8:
        # edges that coincide with rows are the interesting ones
        a, b = sorted([float(rng.choice(z)), float(rng.choice(z))])
        if rng.random() < 0.4:
            a, b = sorted(rng.uniform(1.7, 4.3, 2))
        if rng.random() < 0.3:
            # a hair beside a row
            d = float(rng.choice([1e-9, -1e-9, 1e-13, -1e-13]))
            a, b = (a + d, b) if rng.random() < .5 else (a, b + d)
            a, b = sorted([a, b])
        kw = {"zmin": float(a), "zmax": float(b)}
        if rng.random() < 0.15:
            kw.pop("zmin")
        elif rng.random() < 0.15:
            kw.pop("zmax")
    return keep, kw


def compare(mon, got, exp, **wit):
    names = got.dtype.names
    for k, v in exp.items():
        if not mon.check(k in names, "columns", f"column {k} missing", **wit):
            continue
        g = got[k]
        if v.dtype.kind in "US":
            g = np.array([str(x).strip() for x in g])
            v = np.array([str(x) for x in v])
        mon.equal(g, v, "rows", f"column {k} differs from the selected rows",
                  **wit)
    mon.count("rows_compared", len(exp["TARGETID"]))


def run_case(case, mon, tmp):
    from qsonic.catalog import read_quasar_catalog
    import qsonic
    rng = np.random.default_rng(case["seed"])
    path = os.path.join(tmp, "cat.fits")
    if case["kind"] == "select":
        is_mock = bool(rng.random() < 0.35)
        is_tile = bool(not is_mock and rng.random() < 0.3)
        large = bool(rng.random() < .04)
        mon.count("large", large)
        cols = gen(rng, is_mock, is_tile, nmin=2000 if large else 1)
        ext = write(rng, path, cols)
        mon.count("several_hdus", "+" in ext)
        for _ in range(4):
            keep, kw = options(rng, cols, is_mock)
            exp, comp = expected(cols, is_mock, is_tile, keep,
                                 kw.get("zmin", 0), kw.get("zmax", 100.0))
            wit = dict(keep=keep, kw=kw, mock=is_mock, tile=is_tile, ext=ext)
            call = lambda: read_quasar_catalog(  # noqa
                path, is_mock=is_mock, is_tile=is_tile, keep_surveys=keep,
                **kw)
            nexp = len(exp["TARGETID"])
            mon.count("rows_excluded", len(cols["TARGETID"]) - nexp)
            if nexp == 0:
                mon.raises(call, "empty", "empty selection must raise", **wit)
                mon.count("errors_demanded")
                continue
            got = call()
            compare(mon, got, exp, **wit)
            if comp:
                mon.count("healpix_computed", nexp)
            if is_tile:
                mon.count("tile_reads")
            if "SURVEY" in exp and len(set(map(str, exp["SURVEY"]))) > 1:
                mon.count("multi_survey")
                if keep is not None and len(keep) == 2:
                    mon.count("two_surveys_kept")
            mon.state(is_mock, is_tile, ext, sorted(cols), keep is None,
                      keep and len(keep), sorted(kw), min(nexp, 5))
            mon.seen(rows_in=len(cols["TARGETID"]), rows_out=nexp, keep=keep,
                     **kw)
    elif case["kind"] == "error":
        is_mock = bool(rng.random() < 0.4)
        is_tile = bool(not is_mock and rng.random() < 0.5)
        cols = gen(rng, is_mock, is_tile)
        what = str(rng.choice(["dup", "col", "nofile", "garbage", "trunc"]))
        if what == "dup":
            if len(cols["TARGETID"]) < 2:
                return
            i, j = rng.choice(len(cols["TARGETID"]), 2, replace=False)
            cols["TARGETID"][i] = cols["TARGETID"][j]
            if is_tile:
                cols["TILEID"][i] = cols["TILEID"][j]
            # duplicates must be seen even outside of the redshift range
        elif what == "col":
            groups = [["TARGETID"], ["Z"], ["RA", "TARGET_RA"],
                      ["DEC", "TARGET_DEC"]]
            if not is_mock:
                groups += [["SURVEY"], ["LASTNIGHT", "COADD_LASTNIGHT",
                                        "LAST_NIGHT"]]
            if is_tile:
                groups += [["TILEID"], ["PETAL_LOC"]]
            g = groups[int(rng.integers(len(groups)))]
            n = len(cols["TARGETID"])
            cols = {k: v for k, v in cols.items() if k not in g}
            cols.setdefault("EXTRA_COL", np.zeros(n))
            what += ":" + g[0]
        if what == "nofile":
            pass
        elif what == "garbage":
            open(path, "wb").write(os.urandom(5000))
        else:
            tid = cols.get("TARGETID")
            if tid is None:
                arr = np.zeros(len(next(iter(cols.values()))), dtype=[
                    (k, "S8" if np.asarray(v).dtype.kind == "U"
                     else np.asarray(v).dtype.str, np.asarray(v).shape[1:])
                    for k, v in cols.items()])
                for k, v in cols.items():
                    arr[k] = v
                fitsio.write(path, arr, extname="ZCATALOG")
            else:
                write(rng, path, cols)
            if what == "trunc":
                sz = os.path.getsize(path)
                with open(path, "r+b") as f:
                    f.truncate(min(sz, 2880))
        mon.raises(lambda: read_quasar_catalog(
            path, is_mock=is_mock, is_tile=is_tile), "must-raise",
            f"invalid catalogue ({what}) must raise", what=what)
        mon.count("errors_demanded")
        mon.state("error", what, is_mock, is_tile)
        mon.seen(what=what)
    else:
        n = int(rng.integers(2, 5))
        is_mock = bool(rng.random() < 0.4)
        cols = gen(rng, is_mock, False)
        write(rng, path, cols)
        keep, kw = options(rng, cols, is_mock)
        exp, comp = expected(cols, is_mock, False, keep,
                             kw.get("zmin", 0), kw.get("zmax", 100))
        from qsonic.catalog import mpi_read_quasar_catalog

        def body(comm):
            return mpi_read_quasar_catalog(
                path, comm, comm.Get_rank(), is_mock, keep_surveys=keep, **kw)
        res = fakempi.run(n, body, seed=case["seed"])
        if len(exp["TARGETID"]) == 0:
            mon.check(all(o and o[0] == "exc" and "QsonicException" in o[1]
                          for o in res.outcomes), "mpi-error",
                      "every rank must raise QsonicException",
                      got=res.describe())
            mon.count("errors_demanded")
        else:
            if mon.check(res.all_ok(), "mpi", "all ranks must get a catalogue",
                         got=res.describe()):
                for g in res.values:
                    compare(mon, g, exp, keep=keep, kw=kw, ranks=n)
        # without MPI
        if len(exp["TARGETID"]):
            compare(mon, mpi_read_quasar_catalog(
                path, is_mock=is_mock, keep_surveys=keep, **kw), exp)
        mon.state("mpi", n, res.kinds())
        mon.seen(ranks=n)
