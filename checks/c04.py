"""C04: every Spectrum returned by a reader carries its own target's data."""
import os
import warnings

import fitsio
import numpy as np

from qv import synth

RULE = ("synthetic mock / coadd / exposure / tile trees whose every value "
        "encodes (row, arm, pixel), shuffled rows, extra and missing targets, "
        "several surveys per HEALPix, arm subsets; catalogue read by the "
        "program's own reader; non-trivial = at least one spectrum compared "
        "value by value; distinct = (format, arms, reso, missing, extra, "
        "surveys, group size)")
ASSUMPTIONS = ["all files of one run share the wavelength grid per arm (the "
               "package keeps it as a class attribute by design)",
               "fitsio is trusted"]
REQUIRED = {"spectra_compared": 800, "missing_targets": 60,
            "extra_rows": 200, "multi_survey_groups": 10, "exposures": 100,
            "true_continua": 60, "reso_only": 30, "reso_fewer": 5, "tile_spectra": 60, "warnings_demanded": 20, "large_trees": 4,
            "f8_trees": 20}

ALL = ("B", "R", "Z")


def cases(tier):
    k = 4 if tier == "quick" else 40
    return ([{"kind": "mock"}] * (50 * k) + [{"kind": "coadd"}] * (60 * k)
            + [{"kind": "exposure"}] * (45 * k) + [{"kind": "tile"}] * (40 * k)
            + [{"kind": "reso"}] * (15 * k))


class Store:
    """Rows written to files, keyed by identity."""

    def __init__(self, rng, wave, reso):
        self.rng, self.wave, self.reso = rng, wave, reso
        self.nrow = 0
        self.dt = str(rng.choice(["f4", "f4", "f8"]))

    def row(self, tid, **extra):
        rng = self.rng
        self.nrow += 1
        r = {"TARGETID": int(tid), "flux": {}, "ivar": {}, "mask": {},
             "reso": {}, **extra}
        for k, (arm, w) in enumerate(self.wave.items()):
            n = w.size
            base = self.nrow * 4096 + 1024 * k
            r["flux"][arm] = (base + np.arange(n)).astype(self.dt)
            iv = (base * 2 + np.arange(n)).astype(self.dt)
            if self.dt == "f8":
                r["flux"][arm] += 1. / 3
                iv += 1e-6
            m = np.where(rng.random(n) < 0.07, rng.integers(1, 2**16, n), 0)
            m = np.where((rng.random(n) < .5) & (m > 0),
                         1 << rng.integers(0, 31, n), m)
            iv[rng.random(n) < 0.04] = 0
            iv[rng.random(n) < 0.02] = -3
            r["flux"][arm][rng.random(n) < 0.02] = np.nan
            r["ivar"][arm], r["mask"][arm] = iv, m.astype("i4")
            if self.reso:
                nd = 5 if arm == "B" else 7
                r["reso"][arm] = (base + np.arange(nd)[:, None] * 100
                                  + np.arange(n)[None, :]).astype("f4")
        return r


def expected_flux(r, arm):
    f = r["flux"][arm].astype("f8").copy()
    i = r["ivar"][arm].astype("f8").copy()
    bad = (r["mask"][arm] != 0) | np.isnan(f) | np.isnan(i) | (i < 0)
    f[bad] = 0
    i[bad] = 0
    return f, i


def compare(mon, spec, r, wave, arms, catrow, reso2d=None, want_reso=True,
            **wit):
    mon.count("spectra_compared")
    wit = dict(tid=r["TARGETID"], **wit)
    mon.check(set(spec.flux) == set(arms), "arms", "arms read differ",
              got=sorted(spec.flux), want=sorted(arms), **wit)
    for arm in arms:
        if arm not in spec.flux:
            continue
        f, i = expected_flux(r, arm)
        mon.equal(np.asarray(spec.wave[arm], "f8"), wave[arm], "wave",
                  f"wavelength of arm {arm}", **wit)
        mon.equal(np.asarray(spec.flux[arm], "f8"), f, "flux",
                  f"flux of arm {arm} is not this target's", **wit)
        mon.equal(np.asarray(spec.ivar[arm], "f8"), i, "ivar",
                  f"ivar of arm {arm} is not this target's", **wit)
        if want_reso:
            exp = reso2d[arm] if reso2d is not None else r["reso"][arm]
            if mon.check(arm in spec.reso, "reso", "resolution missing",
                         arm=arm, **wit):
                mon.equal(np.asarray(spec.reso[arm], "f8"),
                          exp.astype("f8"), "reso",
                          f"resolution of arm {arm} is not this target's",
                          **wit)
        else:
            mon.check(not spec.reso, "reso", "resolution must be skipped",
                      **wit)
    for k in catrow.dtype.names:
        if k in ("PETAL_LOC", "TILEID", "NIGHT", "FIBER",
                 "EXPID") and k in r:
            continue
        mon.check(np.all(spec.catrow[k] == catrow[k]), "catrow",
                  f"catalogue column {k} is not this target's",
                  got=spec.catrow[k], want=catrow[k], **wit)


def pick_arms(rng):
    n = int(rng.integers(1, 4))
    return [str(a) for a in rng.permutation(ALL)[:n]]


def read_all(reader, groups):
    """Run reader over groups; returns specs per group and warning flags."""
    out, warned = [], []
    for g in groups:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            out.append(reader(g))
        warned.append(any(issubclass(w.category, RuntimeWarning)
                          and "match" in str(w.message) for w in ws))
    return out, warned


def make_catalog(rng, path, cols):
    synth.write_table(path, cols, extname="ZCATALOG")


def queue(path, is_mock, is_tile, keep):
    from qsonic.catalog import mpi_get_local_queue
    from qv import fakempi
    return mpi_get_local_queue(path, fakempi.self_comm(), 0, 1, is_mock,
                               is_tile, keep)


def run_case(case, mon, tmp):
    from qsonic.io import get_spectra_reader_function
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    arms = pick_arms(rng)
    dw = float(rng.choice([0.8, 1.0]))
    wave = synth.grid(rng, ALL, dwave=dw, npix={
        a: int(rng.integers(30, 70)) for a in ALL})
    skip_reso = bool(rng.random() < 0.35)
    indir = os.path.join(tmp, "in")
    cpath = os.path.join(tmp, "cat.fits")
    st = Store(rng, wave, True)
    large = bool(rng.random() < .06)
    nq = int(rng.integers(80, 260)) if large else int(rng.integers(1, 25))
    mon.count("large_trees", large)
    mon.count("f8_trees", st.dt == "f8")
    ids = synth.spread_targetids(rng, nq * 2, big=rng.random() < 0.6)
    tids, extras = ids[:nq], ids[nq:]
    npix = 1 if large else int(rng.integers(1, 5))
    p_miss = float(rng.choice([0, 0, 0.15, 0.5]))
    p_extra = float(rng.choice([0, 0.3, 1.0]))
    cols = {"TARGETID": tids, "Z": rng.uniform(2, 4, nq),
            "RA": rng.uniform(0, 360, nq), "DEC": rng.uniform(-80, 80, nq)}
    bal = rng.random() < 0.3
    if bal:
        for c in ("VMIN_CIV_450", "VMAX_CIV_450"):
            cols[c] = rng.uniform(0, 1, (nq, 3)).astype("f4")
    if kind == "mock":
        run_mock(case, mon, rng, arms, wave, skip_reso, indir, cpath, st,
                 cols, extras, npix, p_miss, p_extra)
    elif kind == "tile":
        run_tile(case, mon, rng, arms, wave, skip_reso, indir, cpath, st,
                 cols, extras, p_miss, p_extra)
    else:
        run_healpix(case, mon, rng, arms, wave, skip_reso, indir, cpath, st,
                    cols, extras, npix, p_miss, p_extra)
    mon.seen(fmt=kind, arms=arms, nq=nq, missing=p_miss)


def finish(mon, fmt, results, warned, groups, present, catrows, wave, arms,
           want_reso, resos=None, truth=None, **wit):
    """present: per group list of rows expected."""
    for g, specs, rows, w, reso2d in zip(groups, results, present, warned,
                                         resos or [None] * len(groups)):
        want = {int(r["TARGETID"]): r for r in rows}
        got = [int(s.targetid) for s in specs]
        mon.check(sorted(got) == sorted(want), "presence",
                  "returned targets are not exactly those present",
                  missing=sorted(set(want) - set(got)),
                  unexpected=sorted(set(got) - set(want)), n=len(got), **wit)
        miss = g.size - len(want)
        mon.count("missing_targets", miss)
        if miss:
            mon.count("warnings_demanded")
            mon.check(w, "warning", "absent targets must warn", **wit)
        for s in specs:
            r = want.get(int(s.targetid))
            if r is None:
                continue
            cr = catrows[int(s.targetid)]
            compare(mon, s, r, wave, arms, cr, reso2d=reso2d,
                    want_reso=want_reso, **wit)
            if truth is not None:
                mon.count("true_continua")
                mon.equal(np.asarray(s.cont_params["true_data"], "f8"),
                          truth[0][int(s.targetid)].astype("f8"), "truth",
                          "true continuum is not this target's",
                          tid=s.targetid, **wit)
                mon.close([s.cont_params["true_data_w1"],
                           s.cont_params["true_data_dwave"]],
                          [truth[1], truth[2]], "truth", "truth grid")


def index_catalog(cols, groups):
    return {int(t): row for g in groups for t, row in zip(g["TARGETID"], g)}


def check_rows_unaltered(mon, groups, cols):
    """The queue keeps the written catalogue values of every target."""
    byid = {int(t): i for i, t in enumerate(cols["TARGETID"])}
    for g in groups:
        for row in g:
            i = byid[int(row["TARGETID"])]
            for k in ("Z", "RA", "DEC"):
                mon.check(row[k] == cols[k][i], "queue", "catalogue altered")


def run_mock(case, mon, rng, arms, wave, skip_reso, indir, cpath, st, cols,
             extras, npix, p_miss, p_extra):
    from qsonic.io import get_spectra_reader_function
    nq = len(cols["Z"])
    pix = rng.choice(3000, npix, replace=False)
    cols["HPXPIXEL"] = rng.choice(pix, nq).astype("i8")
    if rng.random() < 0.3:
        cols["SURVEY"] = rng.choice(["main", "sv1"], nq)
    make_catalog(rng, cpath, cols)
    keep = None if rng.random() < 0.5 else ["main", "sv1"]
    groups = queue(cpath, True, False, keep)
    check_rows_unaltered(mon, groups, cols)
    true = bool(rng.random() < 0.6)
    ncont = 40
    w1, dwc = 3000.0, 25.0
    resos = []          # every healpix has its own resolution
    truth = {}
    present = []
    ex = list(extras)
    for g in groups:
        p = int(g["HPXPIXEL"][0])
        rows = [st.row(t) for t in g["TARGETID"] if rng.random() >= p_miss]
        pres = list(rows)
        nex = int(rng.binomial(min(len(ex), 5), p_extra))
        rows += [st.row(ex.pop()) for _ in range(nex)]
        mon.count("extra_rows", nex)
        if not rows:
            rows = [st.row(ex.pop() if ex else 1)]
        rng.shuffle(rows)
        fs, ft = synth.mock_paths(indir, p)
        synth.write_spec_file(fs, wave, rows, reso=False)
        tr = list(rows)
        if rng.random() < 0.5:
            rng.shuffle(tr)
        if rng.random() < 0.3 and ex:
            tr.append(st.row(ex.pop()))
        cont = []
        for r in tr:
            c = (r["flux"]["B"][~np.isnan(r["flux"]["B"])][0]
                 + np.arange(ncont)).astype("f4")
            truth[r["TARGETID"]] = c
            cont.append(c)
        resos.append({
            a: (10000 * len(resos) + 1000 * k + np.arange(11)[:, None] * 70
                + np.arange(wave[a].size)[None, :]).astype("f4")
            for k, a in enumerate(ALL)})
        synth.write_truth_file(ft, wave, resos[-1],
                               np.array([r["TARGETID"] for r in tr]),
                               np.array(cont), w1, dwc)
        present.append(pres)
    rd = get_spectra_reader_function(indir, arms, True, skip_reso, true,
                                     False, False)
    res, warned = read_all(rd, groups)
    finish(mon, "mock", res, warned, groups, present,
           index_catalog(cols, groups), wave, arms, not skip_reso,
           resos=resos, truth=(truth, w1, dwc) if true else None,
           survey="SURVEY" in cols)
    mon.state("mock", sorted(arms), skip_reso, true, p_miss, p_extra,
              "SURVEY" in cols, keep is None,
              min(6, max(g.size for g in groups)))


def run_healpix(case, mon, rng, arms, wave, skip_reso, indir, cpath, st, cols,
                extras, npix, p_miss, p_extra):
    from qsonic.io import (get_spectra_reader_function,
                           read_resolution_matrices_onehealpix_data)
    exposure = case["kind"] == "exposure"
    resoonly = case["kind"] == "reso"
    if resoonly:
        skip_reso = True
    nq = len(cols["Z"])
    pix = rng.choice(40000, npix, replace=False)
    cols["HPXPIXEL"] = rng.choice(pix, nq).astype("i8")
    surveys = list(rng.choice(["main", "sv1", "sv2", "sv3", "special"],
                              int(rng.integers(1, 4)) if rng.random() < .8
                              else 5, replace=False))
    cols["SURVEY"] = rng.choice(surveys, nq)
    cols["LASTNIGHT"] = rng.integers(20210101, 20230101, nq).astype("i4")
    if exposure and rng.random() < 0.3:
        cols["TILEID"] = rng.integers(500, 600, nq).astype("i4")
    make_catalog(rng, cpath, cols)
    keep = None if rng.random() < 0.5 else [str(s) for s in surveys]
    groups = queue(cpath, False, False, keep)
    check_rows_unaltered(mon, groups, cols)
    present = []
    ex = list(extras)
    rows_by_file = {}
    for g in groups:
        p = int(g["HPXPIXEL"][0])
        pres = []
        svs = sorted(set(str(s) for s in g["SURVEY"]))
        if len(svs) > 1:
            mon.count("multi_survey_groups")
        for s in svs:
            rows, here = [], []
            for t in g["TARGETID"][g["SURVEY"] == s]:
                if rng.random() < p_miss:
                    continue
                nexp = int(rng.integers(1, 4)) if exposure else 1
                for e in range(nexp):
                    here.append(st.row(
                        t, EXPID=int(rng.integers(1, 10**6)),
                        NIGHT=int(rng.integers(20210101, 20230101)),
                        TILEID=int(rng.integers(1, 10**4)),
                        FIBER=int(rng.integers(0, 5000)),
                        PETAL_LOC=int(rng.integers(0, 10))))
            # the same targets also exist in other surveys' files
            others = [t for t in g["TARGETID"][g["SURVEY"] != s]
                      if rng.random() < 0.5]
            nex = int(rng.binomial(min(len(ex), 4), p_extra))
            more = others + [ex.pop() for _ in range(nex)]
            mon.count("extra_rows", len(more))
            if not here and not more:
                more = [1]
            rows = here + [st.row(t, EXPID=1, NIGHT=2, TILEID=3, FIBER=4,
                                  PETAL_LOC=5) for t in more]
            rng.shuffle(rows)
            fn = synth.data_path(indir, s, p,
                                 "spectra" if exposure else "coadd")
            synth.write_spec_file(fn, wave, rows)
            pres += here
        present.append(pres)
    rd = get_spectra_reader_function(indir, arms, False, skip_reso, False,
                                     False, exposure)
    res, warned = read_all(rd, groups)
    cats = index_catalog(cols, groups)
    mon.state(case["kind"], sorted(arms), skip_reso, p_miss, p_extra,
              len(surveys), keep is None, "TILEID" in cols,
              min(6, max(g.size for g in groups)))
    if not exposure:
        finish(mon, "coadd", res, warned, groups, present, cats, wave, arms,
               not skip_reso, nsurveys=len(surveys))
        if resoonly:
            for g, specs, rows in zip(groups, res, present):
                for s in specs:
                    s.set_forest_region(wave["B"][5], 1e5, 0.0, 1e5)
                # cuts and fits leave only some of the spectra
                short = rng.random() < .5
                if short:
                    specs = [s for s in specs if rng.random() < .7]
                if not specs or not all(s.forestwave for s in specs):
                    continue
                mon.count("reso_fewer", len(specs) < g.size)
                n0 = [int(s.targetid) for s in specs]
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    specs = read_resolution_matrices_onehealpix_data(
                        g, indir, specs)
                if len(rows) < g.size:
                    mon.count("warnings_reso")
                    mon.check(any(issubclass(x.category, RuntimeWarning)
                                  for x in ws), "warning",
                              "absent targets must warn when the resolution "
                              "is read")
                mon.equal([int(s.targetid) for s in specs], n0, "reso-only",
                          "list of spectra")
                want = {int(r["TARGETID"]): r for r in rows}
                for s in specs:
                    r = want[int(s.targetid)]
                    for arm, w in s.forestwave.items():
                        i1 = np.searchsorted(wave[arm], w[0])
                        mon.count("reso_only")
                        mon.equal(
                            np.asarray(s.forestreso[arm], "f8"),
                            r["reso"][arm][:, i1:i1 + w.size].astype("f8"),
                            "reso-only", "forest resolution is not this "
                            "target's", tid=s.targetid, arm=arm)
        return
    for g, specs, rows, w in zip(groups, res, present, warned):
        want = {(r["TARGETID"], r["EXPID"], r["FIBER"], r["TILEID"]): r
                for r in rows}
        got = [(int(s.targetid), int(s.catrow["EXPID"]),
                int(s.catrow["FIBER"]), int(s.catrow["TILEID"]))
               for s in specs]
        mon.check(sorted(got) == sorted(want), "presence",
                  "returned exposures are not exactly those present",
                  got=got[:5], want=list(want)[:5], n=(len(got), len(want)))
        present_t = {r["TARGETID"] for r in rows}
        miss = [t for t in g["TARGETID"] if int(t) not in present_t]
        mon.count("missing_targets", len(miss))
        if miss:
            mon.count("warnings_demanded")
            mon.check(w, "warning", "absent targets must warn")
        for s, key in zip(specs, got):
            r = want.get(key)
            if r is None:
                continue
            mon.count("exposures")
            compare(mon, s, r, wave, arms, cats[int(s.targetid)],
                    want_reso=not skip_reso, key=key)
            for k in ("EXPID", "NIGHT", "TILEID", "FIBER", "PETAL_LOC"):
                mon.check(int(s.catrow[k]) == r[k], "exposure-row",
                          f"{k} of exposure", got=s.catrow[k], want=r[k])


def run_tile(case, mon, rng, arms, wave, skip_reso, indir, cpath, st, cols,
             extras, p_miss, p_extra):
    from qsonic.io import get_spectra_reader_function
    nq = len(cols["Z"])
    nt = int(rng.integers(1, 4))
    tiles = rng.choice(9000, nt, replace=False) + 1
    nights = rng.integers(20210101, 20230101, nt)
    k = rng.integers(0, nt, nq)
    cols["TILEID"] = tiles[k].astype("i4")
    cols["LASTNIGHT"] = nights[k].astype("i4")
    cols["PETAL_LOC"] = rng.integers(0, int(rng.integers(1, 10)), nq).astype(
        rng.choice(["i2", "i4"]))
    cols["SURVEY"] = np.array(["main"] * nq)
    # a target observed in two tiles
    if nt > 1 and nq > 2:
        i, j = 0, 1
        cols["TARGETID"][j] = cols["TARGETID"][i]
        cols["TILEID"][i], cols["LASTNIGHT"][i] = tiles[0], nights[0]
        cols["TILEID"][j], cols["LASTNIGHT"][j] = tiles[1], nights[1]
    make_catalog(rng, cpath, cols)
    groups = queue(cpath, False, True, ["main"])
    ex = list(extras)
    present = []
    for g in groups:
        pres = []
        t0, n0 = int(g["TILEID"][0]), int(g["LASTNIGHT"][0])
        for p in np.unique(g["PETAL_LOC"]):
            here = [st.row(t) for t in g["TARGETID"][g["PETAL_LOC"] == p]
                    if rng.random() >= p_miss]
            nex = int(rng.binomial(min(len(ex), 4), p_extra))
            mon.count("extra_rows", nex)
            rows = here + [st.row(ex.pop()) for _ in range(nex)]
            if not rows:
                rows = [st.row(1)]
            rng.shuffle(rows)
            synth.write_spec_file(synth.tile_path(indir, t0, n0, int(p)),
                                  wave, rows)
            pres += here
        present.append(pres)
    rd = get_spectra_reader_function(indir, arms, False, skip_reso, False,
                                     True, False)
    res, warned = read_all(rd, groups)
    for g, specs, rows, w in zip(groups, res, present, warned):
        mon.count("tile_spectra", len(specs))
        finish(mon, "tile", [specs], [w], [g], [rows],
               {int(t): r for t, r in zip(g["TARGETID"], g)}, wave, arms,
               not skip_reso)
    mon.state("tile", sorted(arms), skip_reso, p_miss, p_extra, nt,
              min(6, max(g.size for g in groups)))
