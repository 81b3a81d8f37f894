"""C24: compiled kernels are called within their contract."""
import importlib
import os

import numpy as np

from qv import e2e, prog, small, specs, synth
from qv.runner import Monitor

RULE = ("the stand-in for the compiler checks type, dimension, byte order, "
        "alignment and writability of every argument against the declared "
        "signature and runs every kernel with instrumented subscripts, under "
        "the workloads of the other properties (three programs on 1-4 ranks, "
        "readers, masks, calibration, continuum fitting, stacking, variance "
        "statistics, interpolators, coaddition; their own verdicts are not "
        "used here) and under tables of every numeric type and byte order; "
        "distinct = (kernel, argument types, contiguity, size class)")
ASSUMPTIONS = ["numba is not installed: kernels run as Python with the "
               "checks numba's dispatcher would make and those it omits",
               "negative literals and loop counters count from the end of an "
               "array as in numba; indices from data may not"]
REQUIRED = {"kernel_kinds": 150, "subscripts": 100000, "workloads": 80,
            "types": 10}
# workload modules and how many cases of each of their kinds
SHARE = {"c07": 4, "c08": 5, "c09": 3, "c10": 6, "c11": 5, "c12": 6,
         "c13": 5, "c14": 8, "c15": 3, "c16": 10, "c17": 3, "c18": 4,
         "c20": 3, "c21": 12, "c22": 4}


def cases(tier):
    k = 1 if tier == "quick" else 6
    out = [{"kind": "types"}] * (16 * k)
    for m, n in SHARE.items():
        mod = importlib.import_module("checks." + m)
        kinds = []
        for c in mod.cases("quick"):
            if c["kind"] not in kinds and c["kind"] not in (
                    "refuse", "reject"):
                kinds.append(c["kind"])
        out += [{"kind": f"{m}/{x}"} for x in kinds for _ in range(n * k)]
    return out


def judge(mon, log, what):
    kinds = set()
    viol = []
    if os.path.exists(log):
        for ln in open(log, errors="replace"):
            f = ln.rstrip("\n").split("\t")
            if f[0] == "K" and len(f) > 1:
                kinds.add(tuple(f[1:]))
            elif f[0] == "V" and len(f) > 3:
                viol.append((f[1].rsplit(".", 1)[-1], f[2], f[3]))
    for k in kinds:
        name = k[0].rsplit(".", 1)[-1]
        mon.state(name, *k[1:])
        mon.count("kernel_kinds")
        mon.count("k:" + name)
    mon.check(not viol, "contract", "kernel called outside of its contract",
              violations=sorted(set(viol))[:6], number=len(viol), what=what)
    return viol


def watched(mon, tmp, what, fn):
    import numba
    log = f"{tmp}/kernels.log"
    ev = numba.monitor(True, log)
    try:
        fn()
    finally:
        sub = ev["subscripts"]
        mon.count("subscripts", int.from_bytes(sub[:8], "little"))
        numba.monitor(False)
    judge(mon, log, what)


def run_other(case, mon, tmp):
    m, kind = case["kind"].split("/")
    mod = importlib.import_module("checks." + m)
    inner = dict(case, kind=kind)
    work = f"{tmp}/work"
    os.makedirs(work)

    def go():
        try:
            mod.run_case(inner, Monitor(inner), work)
            mon.count("workloads")
        except Exception:
            # judged by the property the workload belongs to
            mon.count("workload_failed")
    watched(mon, tmp, case["kind"], go)


def retype(path, rng):
    """Rewrites the tables of a FITS file with other numeric types."""
    import fitsio
    t = synth.read_fits_tree(path)
    dt = str(rng.choice(["f4", "f8"]))
    with fitsio.FITS(path, "rw", clobber=True) as f:
        for nm, h, d in t:
            f.write([np.asarray(d[c]).astype(dt) if d[c].dtype.kind == "f"
                     else d[c] for c in d.dtype.names],
                    names=list(d.dtype.names), extname=nm)
    return dt


def run_types(case, mon, tmp):
    """Calibration, fiducial and delta tables of other types."""
    from checks import c20
    rng = np.random.default_rng(case["seed"])
    mode = str(rng.choice(["data", "mock"]))
    w = e2e.World(rng, f"{tmp}/w", mode=mode, n=22, npix=3,
                  truth=mode == "mock", reso=bool(rng.random() < .3))
    o = e2e.options(rng, w, mode, fid_vl=bool(rng.random() < .6), niter=2,
                    noise=True, flux=True, dla=True, min_rsnr=0., min_fsnr=0.,
                    model=str(rng.choice(["picca", "true"]))
                    if mode == "mock" else str(rng.choice(
                        ["picca", "input"])))
    a = e2e.argv(w, o, f"{tmp}/o")
    dts = [retype(f"{w.root}/{f}", rng) for f in sorted(os.listdir(w.root))
           if f in ("noise.fits", "flux.fits", "fid.fits")]

    def setup(comm):
        small.shrink_varlss(nvarbins=14, min_pix=3, min_qso=1)

    def fit():
        res = prog.run_main("qsonic_fit", a, n=int(rng.integers(1, 4)),
                            seed=case["seed"] % 997, setup=setup)
        mon.count("types", res.all_ok())
        mon.count("types_failed", not res.all_ok())
    watched(mon, tmp, dict(dtypes=dts, mode=mode, model=o["model"]), fit)
    # delta tables in the type other programs write
    ds = []
    dt = str(rng.choice(["f4", "f8"]))
    for t in synth.spread_targetids(rng, 40):
        for d in c20.contributions(rng, int(t), 2, .8, False, False, 30., 5.,
                                   False, Monitor(case)):
            for c in ("delta", "ivar", "weight", "cont", "wave"):
                d[c] = d[c].astype(dt)
            if rng.random() < .3:
                d["wavecol"] = "LOGLAM"
                d["wave"] = np.log10(d["wave"].astype("f8"))
            ds.append(d)
    for k in range(3):
        synth.write_delta_file(f"{tmp}/d/delta-{k}.fits", ds[k::3])

    def calib():
        res = prog.run_main(
            "qsonic_calib", ["-i", f"{tmp}/d", "-o", f"{tmp}/oc", "--wave1",
                             "3600", "--wave2", "3720", "--nwbins", "3",
                             "--nvarbins", "10", "--var1", "1e-3"],
            n=int(rng.integers(1, 4)), seed=3, setup=setup)
        mon.count("types", res.all_ok())

    def coadd():
        os.makedirs(f"{tmp}/co")
        c20.run_program(["-i", f"{tmp}/d", "-o", f"{tmp}/co", "--nproc", "1"])
        mon.count("types")
    watched(mon, tmp, f"calib {dt}", calib)
    watched(mon, tmp, f"coadd {dt}", coadd)


def run_case(case, mon, tmp):
    specs.reset_statics()
    if case["kind"] == "types":
        run_types(case, mon, tmp)
    else:
        run_other(case, mon, tmp)
