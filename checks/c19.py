"""C19: blinding."""
import contextlib
import io
import os
from argparse import Namespace

import fitsio
import numpy as np

from qv import e2e, prog, small, synth
from checks import c17, c20

RULE = ("(a) set_blinding over random and boundary nights, forest limits and "
        "mock flag, in random sequences, then saving real spectra; saving "
        "before anything is set; (b) the real qsonic-fit program on 1-4 "
        "simulated ranks (data, tile and mock trees, all night column names, "
        "exposures, side bands) where the latest night is carried by one "
        "row: in another rank's pixel, absent from the files, cut later, or "
        "not selected at all; every column and header of every file, then "
        "qsonic-coadd on the result; (c) reading, coadding and rewriting "
        "mixtures of blinded and unblinded deltas; distinct = (kind, "
        "strategy, where the latest night is, ranks)")
ASSUMPTIONS = ["forest_w1 is compared with 1215.67 A"]
REQUIRED = {"strategy": 1500, "saved_ext": 200, "not_set": 10, "runs": 25,
            "run_ext": 500, "run_none": 4, "run_m2": 2, "run_y1": 2,
            "run_y3": 1, "carrier_other_rank": 5, "carrier_unselected": 3,
            "carrier_absent": 1, "mock": 2, "tile": 2, "sideband": 2,
            "exposures": 2, "coadd_ext": 100, "mixed": 20,
            "blind_pairs": 30}
LYA = 1215.67
STEPS = (20210514, 20210801, 20220801)


def cases(tier):
    k = 2 if tier == "quick" else 20
    return ([{"kind": "set"}] * (40 * k) + [{"kind": "unset"}] * (12 * k)
            + [{"kind": "run"}] * (130 * k) + [{"kind": "deltas"}] * (40 * k))


def strategy(night, w1=1040., mock=False):
    if mock or w1 > LYA or night < STEPS[0]:
        return "none"
    return ("desi_m2" if night < STEPS[1] else "desi_y1"
            if night < STEPS[2] else "desi_y3")


def some_night(rng):
    u = rng.random()
    if u < .6:
        return int(rng.choice(STEPS)) + int(rng.choice([-1, 0, 1]))
    return int(rng.integers(2019, 2027)) * 10000 + int(
        rng.integers(1, 13)) * 100 + int(rng.integers(1, 29))


def judge_file(mon, path, strat, key, what, wit, counter):
    """Every delta table of one file."""
    n = 0
    for nm, h, d in synth.read_fits_tree(path):
        names = d.dtype.names or ()
        if "LAMBDA" not in names:
            continue
        n += 1
        mon.count(counter)
        col = "DELTA" if strat == "none" else "DELTA_BLIND"
        other = "DELTA_BLIND" if strat == "none" else "DELTA"
        mon.check(col in names and other not in names, key,
                  f"{what}: delta column", actual=list(names),
                  strategy=strat, file=os.path.basename(path), ext=nm, **wit)
        H = {k.upper(): v for k, v in h.items() if k}
        mon.check(str(H.get("BLINDING", "")).strip() == strat, key,
                  f"{what}: BLINDING", actual=H.get("BLINDING"),
                  expected=strat, ext=nm, **wit)
    return n


def run_set(case, mon, rng, tmp):
    from qsonic.io import save_deltas
    from qsonic.spectrum import Spectrum
    sl, reso, expid, _ = c17.make(rng, mon, n=4)
    for s in sl:
        s.cont_params["valid"] = True
    last = None
    for k in range(60):
        mock = bool(rng.random() < .15)
        night = None if mock and rng.random() < .5 else some_night(rng)
        w1 = float(rng.choice([1040., 1040., 1205., LYA, np.nextafter(
            LYA, 2e3), np.nextafter(LYA, 0), 1270., 1600.]))
        if night is not None and rng.random() < .3:
            night = np.int32(night)
        args = Namespace(mock_analysis=mock, forest_w1=w1, forest_w2=w1 + 90,
                         skip_resomat=not reso, wave1=3600., wave2=5000.)
        Spectrum.set_blinding(night, args)
        st = strategy(night, w1, mock)
        mon.count("strategy")
        mon.state("set", st, last, mock, w1 > LYA)
        last = st
        if k % 6 == 5:
            out = f"{tmp}/o{k}"
            os.makedirs(out)
            by = bool(rng.random() < .5)
            save_deltas(sl, out, save_by_hpx=by, mpi_rank=0)
            for f in os.listdir(out):
                judge_file(mon, f"{out}/{f}", st, "saved", "saved deltas",
                           dict(night=night, w1=w1, mock=mock), "saved_ext")


def run_unset(case, mon, rng, tmp):
    from qsonic.io import save_deltas
    sl, _, _, _ = c17.make(rng, mon, n=5)
    for s in sl:
        s.cont_params["valid"] = True
    for by in (False, True):
        out = f"{tmp}/o{by}"
        os.makedirs(out)
        mon.count("not_set")
        mon.raises(lambda: save_deltas(sl, out, save_by_hpx=by, mpi_rank=0),
                   "unset", "saving before the strategy is set")
        n = 0
        for f in os.listdir(out):
            try:
                n += len(synth.read_fits_tree(f"{out}/{f}"))
            except OSError:
                pass
        mon.check(n == 0, "unset", "deltas written before the strategy is "
                  "set", actual=os.listdir(out))
    mon.state("unset", len(sl))


def setup(comm):
    small.shrink_varlss(nvarbins=14, min_pix=3, min_qso=1)


def run_run(case, mon, rng, tmp):
    mode = str(rng.choice(["data", "data", "data", "data", "mock", "tile"]))
    side = mode == "data" and rng.random() < .2
    exposures = mode == "data" and not side and rng.random() < .3
    base = int(rng.choice([20210101, 20210513, 20210514, 20210701]))
    late = int(rng.choice([20210513, 20210514, 20210731, 20210801, 20220731,
                           20220801, 20230301]))
    col = str(rng.choice(["LASTNIGHT", "LAST_NIGHT", "COADD_LASTNIGHT"]))
    tiles = {}

    def nightof(q):
        if mode == "tile":
            return tiles.setdefault(q["TILEID"], min(base, late) if rng
                                    .random() < .8 else late)
        return min(base, late) - int(rng.integers(0, 3))

    two = mode == "data" and rng.random() < .5
    w = e2e.World(rng, f"{tmp}/w", mode=mode, n=int(rng.integers(30, 50)),
                  npix=int(rng.integers(4, 9)), exposures=exposures,
                  surveys=("main", "sv1") if two else ("main",),
                  nightof=nightof, nightcol=col,
                  zrange=(1.7, 2.4) if side else (2.1, 3.0))
    o = e2e.options(rng, w, mode, fid_vl=True, norm=False, niter=1,
                    exposures=str(rng.choice(["before", "after"]))
                    if exposures else "disable")
    r1, r2 = (1270., 1430.) if side else (e2e.R1, e2e.R2)
    tol = (r2 - r1) * o["skip"]

    def selected(q):
        return (e2e.W1 / (r2 - tol) - 1 <= q["Z"] <= e2e.W2 / (r1 + tol) - 1
                and (mode == "mock" or q["SURVEY"] in o["surveys"]))

    where = "none"
    if mode == "data":
        # one row carries the latest night
        where = str(rng.choice(["selected", "selected", "absent",
                                "unselected"]))
        pool = [q for q in w.q if selected(q) == (where != "unselected")]
        if where == "absent":
            pool = [q for q in pool if not q["present"]] or pool
        if pool:
            q = pool[int(rng.integers(0, len(pool)))]
            q["LASTNIGHT"] = late
            where = "absent" if not q["present"] else where
            w.write_catalog()
        else:
            where = "none"
    sel = [q for q in w.q if selected(q)]
    if not sel:
        return
    night = max(q["LASTNIGHT"] for q in sel)
    st = strategy(night, r1, mode == "mock")
    size = int(rng.integers(1, 5))
    size = max(1, min(size, len({q["HPXPIXEL"] for q in sel})))
    a = e2e.argv(w, o, f"{tmp}/o") + ["--forest-w1", str(r1), "--forest-w2",
                                      str(r2)]
    res = prog.run_main("qsonic_fit", a, n=size, seed=case["seed"] % 997,
                        setup=setup)
    mon.count("runs")
    wit = dict(mode=mode, where=where, size=size, night=night, w1=r1)
    files = [f for f in (os.listdir(f"{tmp}/o") if os.path.isdir(
        f"{tmp}/o") else []) if f.startswith("delta-")]
    if not res.all_ok():
        # judged by other properties; nothing may be written unblinded
        mon.count("run_failed")
    n = 0
    for f in files:
        try:
            n += judge_file(mon, f"{tmp}/o/{f}", st, "program",
                            "output of qsonic-fit", wit, "run_ext")
        except OSError:
            mon.check(not res.all_ok(), "program", "unreadable output", **wit)
    if n:
        mon.count("run_" + st.replace("desi_", ""))
        mon.count("carrier_other_rank", where == "selected" and size > 1)
        mon.count("carrier_unselected", where == "unselected")
        mon.count("carrier_absent", where == "absent")
        mon.count(mode)
        mon.count("sideband", side)
        mon.count("exposures", exposures)
        mon.state("run", st, where, size, mode, exposures, side, col)
    if res.all_ok() and n:
        out = f"{tmp}/c"
        os.makedirs(out)
        c20.run_program(coadd_argv(f"{tmp}/o", out))
        for f in os.listdir(out):
            judge_file(mon, f"{out}/{f}", st, "coadded",
                       "output of qsonic-coadd", wit, "coadd_ext")


def coadd_argv(*dirs):
    return ["-i", *dirs[:-1], "-o", dirs[-1], "--nproc", "1"]


def run_deltas(case, mon, rng, tmp):
    """Mixtures of blinded and unblinded contributions."""
    from qsonic.spectrum import Delta
    truth, flat = {}, []
    for t in synth.spread_targetids(rng, int(rng.integers(2, 9))):
        kind = str(rng.choice(["none", "blind", "mixed"]))
        n = int(rng.integers(1, 5))
        if kind == "mixed":
            n = max(n, 2)
        b = np.ones(n, bool) if kind == "blind" else np.zeros(n, bool)
        if kind == "mixed":
            b[rng.permutation(n)[:int(rng.integers(1, n))]] = True
        parts = c20.contributions(rng, int(t), n, .8, False, False,
                                  rng.uniform(0, 360), rng.uniform(-80, 80),
                                  False, mon)
        for p, x in zip(parts, b):
            if x:
                p["deltacol"] = "DELTA_BLIND"
                p["header"]["BLINDING"] = str(rng.choice(
                    ["desi_m2", "desi_y1", "desi_y3"]))
            if rng.random() < .15:
                p["ivar"][:] = 0
                p["weight"][:] = 0
                p["delta"][:] = 0
        truth[int(t)] = parts
        flat += parts
        mon.count("mixed", kind == "mixed")
        mon.count("blind_pairs", kind == "blind")
    dirs = [f"{tmp}/d{i}" for i in range(int(rng.integers(1, 3)))]
    buckets = {}
    for i in rng.permutation(len(flat)):
        k = (dirs[int(rng.integers(0, len(dirs)))], int(rng.integers(0, 3)))
        buckets.setdefault(k, []).append(flat[i])
    for d in dirs:
        os.makedirs(d)
    for (d, j), ps in buckets.items():
        synth.write_delta_file(f"{d}/delta-{j}.fits", ps)
    dirs = [d for d in dirs if os.listdir(d)]

    def judge(names, H, parts, what):
        st = {str(p["header"]["BLINDING"]) for p in parts} - {"none"}
        mon.count("coadd_ext")
        mon.check(("DELTA_BLIND" in names) == bool(st)
                  and ("DELTA" in names) == (not st), "mixture",
                  f"{what}: delta column", actual=list(names),
                  inputs=[p["header"]["BLINDING"] for p in parts])
        b = str(H.get("BLINDING", "")).strip()
        mon.check(b in st if st else b == "none", "mixture",
                  f"{what}: BLINDING", actual=b, inputs=sorted(st))

    out = f"{tmp}/c"
    os.makedirs(out)
    c20.run_program(coadd_argv(*dirs, out))
    seen = 0
    for f in os.listdir(out):
        for nm, h, d in synth.read_fits_tree(f"{out}/{f}"):
            H = {k.upper(): v for k, v in h.items() if k}
            seen += 1
            judge(d.dtype.names, H, truth[int(H["TARGETID"])], "coadd "
                  "program")
    mon.check(seen == len(truth), "mixture", "number of coadds", actual=seen,
              expected=len(truth))
    # read and rewrite, coadd pairs in memory, several generations
    gen = []
    for (d, j), ps in buckets.items():
        with fitsio.FITS(f"{d}/delta-{j}.fits") as ft:
            gen += [(Delta(h), [p]) for h, p in zip(ft[1:], ps)]
    by = {}
    for x, p in gen:
        by.setdefault(int(x.targetid), []).append((x, p))
    for t, lst in by.items():
        x, ps = lst[0]
        if len(lst) > 1 and rng.random() < .7:
            x.coadd([y for y, _ in lst[1:]])
            ps = sum((q for _, q in lst), [])
        for g in range(2):
            fn = f"{tmp}/r{t}-{g}.fits"
            with fitsio.FITS(fn, "rw", clobber=True) as ft:
                x.write(ft)
            (_, h, dd), = synth.read_fits_tree(fn)
            judge(dd.dtype.names, {k.upper(): v for k, v in h.items() if k},
                  ps, "rewritten")
            with fitsio.FITS(fn) as ft:
                x = Delta(ft[1])
    mon.state("deltas", len(truth), len(flat), len(dirs))


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    with contextlib.redirect_stderr(io.StringIO()):
        globals()["run_" + case["kind"]](case, mon, rng, tmp)
