"""C25: option combinations of the fitting program."""
import contextlib
import io
import os
import sys

import fitsio
import numpy as np

from qv import e2e, fakempi, prog, small, synth

RULE = ("(a) random command lines: every documented condition alone, in "
        "pairs and absent, boundary values, unknown choices, wrong types, "
        "missing required options; the real main() of qsonic-fit on 1-3 "
        "simulated ranks, where an accepted line is seen to reach the "
        "(missing) catalogue and a rejected one to touch no path below the "
        "scratch directory and to end every rank; (b) values after parsing "
        "on every rank, default values, resolved continuum model, the model "
        "object of the fitter; (c) small complete runs whose outputs show "
        "the option; distinct = (set of violated conditions, ranks)")
ASSUMPTIONS = ["--continuum-model input without a directory and true "
               "together with input models named by different options are "
               "not judged"]
REQUIRED = {"accepted": 30, "rejected": 100, "ranks_agree": 150,
            "parsed": 200, "model_true": 10, "model_input": 10,
            "model_picca": 20, "defaults": 20, "repeated_arms": 20,
            "bad_choice": 8, "bad_type": 8, "skip_bound": 20,
            "single_condition": 40, "e2e": 5, "watched_events": 40}
_seen = []


def cases(tier):
    k = 3 if tier == "quick" else 30
    return ([{"kind": "lines"}] * (24 * k) + [{"kind": "values"}] * (24 * k)
            + [{"kind": "e2e"}] * (16 * k))


CONDITIONS = ("true-nomock", "true-nomf", "true-novl", "true-input", "wave",
              "forest", "mock-tile", "tile-hpx", "tile-exp", "skip", "choice",
              "type", "required", "unknown")
DEFAULTS = dict(tile_format=False, mock_analysis=False, keep_surveys=["main"],
                skip_resomat=False, arms=["B", "R"], outdir=None,
                coadd_arms="before", exposures="disable", save_by_hpx=False,
                noise_calibration=None, varlss_as_additive_noise=False,
                flux_calibration=None, smoothing_scale=16., min_rsnr=0,
                min_forestsnr=0, skip=.2, wave1=3600., wave2=6000.,
                forest_w1=1050., forest_w2=1180., sky_mask=None,
                bal_mask=False, dla_mask=None, num_iterations=10,
                continuum_model="picca", true_continuum=False,
                input_continuum_dir=None, fiducial_meanflux=None,
                fiducial_varlss=None, cont_order=1, var_fit_eta=False,
                var_use_cov=False, normalize_stacked_flux=False,
                eta_calib_ivar=False, rfdwave=.8, minimizer="iminuit")


def up(x, rng):
    return float(x + rng.choice([0., 1e-9, 1e-3, 1., 300.]))


def line(rng, tmp, want=None):
    """A command line and the conditions it violates."""
    o = {"input_dir": f"{tmp}/nothing", "catalog": f"{tmp}/nocatalog.fits"}
    extra, bad = [], set()
    for k, p in (("bal_mask", .2), ("skip_resomat", .5), ("var_fit_eta", .3),
                 ("var_use_cov", .2), ("normalize_stacked_flux", .2),
                 ("eta_calib_ivar", .2), ("varlss_as_additive_noise", .2),
                 ("save_by_hpx", .3)):
        o[k] = bool(rng.random() < p)
    for k, f in (("noise_calibration", "n.fits"), ("sky_mask", "s.txt"),
                 ("flux_calibration", "f.fits"), ("dla_mask", "d.fits")):
        if rng.random() < .2:
            o[k] = f"{tmp}/{f}"
    if rng.random() < .85:
        o["outdir"] = f"{tmp}/out"
    for k, f in (("smoothing_scale", lambda: float(rng.choice([0, 8.5, 16]))),
                 ("min_rsnr", lambda: float(rng.choice([-3, 0, .25]))),
                 ("min_forestsnr", lambda: float(rng.choice([-1, 0, .5]))),
                 ("num_iterations", lambda: int(rng.integers(1, 9))),
                 ("cont_order", lambda: int(rng.integers(0, 4))),
                 ("rfdwave", lambda: float(rng.choice([.8, 2.5, 8]))),
                 ("minimizer", lambda: str(rng.choice(["iminuit",
                                                       "l_bfgs_b"]))),
                 ("coadd_arms", lambda: str(rng.choice(
                     ["before", "after", "disable"]))),
                 ("keep_surveys", lambda: [str(x) for x in rng.choice(
                     ["main", "sv1", "sv3"], int(rng.integers(1, 4)))]),
                 ("arms", lambda: [str(x) for x in rng.choice(
                     ["B", "R", "Z"], int(rng.integers(1, 7)))])):
        if rng.random() < .4:
            o[k] = f()
    o["skip"] = float(rng.choice([0., 1., .2, .35, 1e-9, 1 - 1e-9]))
    o["wave1"] = float(rng.choice([3600., 3600.5, 4000.]))
    o["wave2"] = float(np.nextafter(o["wave1"], 1e9) if rng.random() < .2
                       else o["wave1"] + rng.choice([.1, 500, 2000]))
    o["forest_w1"] = float(rng.choice([1040., 1050., 1600.]))
    o["forest_w2"] = float(np.nextafter(o["forest_w1"], 1e9) if rng.random()
                           < .2 else o["forest_w1"] + rng.choice([.1, 130]))
    o["mock_analysis"] = bool(rng.random() < .4)
    o["tile_format"] = bool(not o["mock_analysis"] and rng.random() < .3)
    o["exposures"] = "disable" if o["tile_format"] or rng.random() < .6 \
        else str(rng.choice(["before", "after"]))
    if o["tile_format"]:
        o["save_by_hpx"] = False
    for k in ("fiducial_meanflux", "fiducial_varlss"):
        if rng.random() < .5:
            o[k] = f"{tmp}/fid.fits"
    u = rng.random()
    truth = o["mock_analysis"] and u < .5
    if truth:
        o["fiducial_meanflux"] = o["fiducial_varlss"] = f"{tmp}/fid.fits"
    elif u > .7:
        o["input_continuum_dir"] = f"{tmp}/ic"
    # violations
    if want is None:
        want = [] if rng.random() < .35 else list(rng.choice(
            CONDITIONS, 1 if rng.random() < .6 else 2, replace=False))
    for c in want:
        if c == "true-nomock":
            truth = True
            o["mock_analysis"] = False
        elif c == "true-nomf":
            truth = True
            o.pop("fiducial_meanflux", None)
        elif c == "true-novl":
            truth = True
            o.pop("fiducial_varlss", None)
        elif c == "true-input":
            truth = True
            o["input_continuum_dir"] = f"{tmp}/ic"
        elif c == "wave":
            o["wave2"] = o["wave1"] if rng.random() < .4 else up(
                o["wave1"], rng) - 400
        elif c == "forest":
            o["forest_w2"] = o["forest_w1"] if rng.random() < .4 else \
                o["forest_w1"] - float(rng.choice([1e-9, 1, 90]))
        elif c == "mock-tile":
            o["mock_analysis"] = o["tile_format"] = True
        elif c == "tile-hpx":
            o["tile_format"] = o["save_by_hpx"] = True
        elif c == "tile-exp":
            o["tile_format"] = True
            o["exposures"] = str(rng.choice(["before", "after"]))
        elif c == "skip":
            o["skip"] = str(rng.choice(["-0.1", "1.0000001", "-1e-12", "nan",
                                        "inf", "-inf", "2", "NaN"]))
            bad.add(c)
        elif c == "choice":
            k, v = [("arms", ["B", "X"]), ("arms", ["b"]),
                    ("coadd_arms", "never"), ("exposures", "both"),
                    ("continuum_model", "spline"), ("minimizer", "scipy"),
                    ("arms", [])][int(rng.integers(0, 7))]
            o[k] = v
            bad.add(c)
        elif c == "type":
            k, v = [("wave1", "abc"), ("num_iterations", "1.5"),
                    ("cont_order", "one"), ("rfdwave", "x"),
                    ("skip", "half"), ("smoothing_scale", "--")][
                int(rng.integers(0, 6))]
            extra += ["--" + k.replace("_", "-"), v]
            bad.add(c)
        elif c == "required":
            o.pop(str(rng.choice(["input_dir", "catalog"])), None)
            bad.add(c)
        elif c == "unknown":
            extra += [str(rng.choice(["--no-such-option", "stray"]))]
            bad.add(c)
    # what is violated in the end, from the options alone
    alias = None
    if truth:
        alias = int(rng.integers(0, 3))
        if alias in (0, 2):
            o["true_continuum"] = True
        if alias in (1, 2) and o.get("continuum_model") != "spline":
            o["continuum_model"] = "true"
        if "continuum_model" in o and alias == 1 and \
                o["continuum_model"] == "spline":
            o["true_continuum"] = True
    elif o.get("input_continuum_dir") and "continuum_model" not in o:
        if rng.random() < .5:
            o["continuum_model"] = str(rng.choice(["input", "picca"]))
    is_true = o.get("true_continuum") or o.get("continuum_model") == "true"
    mock, tile = o["mock_analysis"], o["tile_format"]
    for c, v in (("true-nomock", is_true and not mock),
                 ("true-nomf", is_true and not o.get("fiducial_meanflux")),
                 ("true-novl", is_true and not o.get("fiducial_varlss")),
                 ("true-input", is_true and o.get("input_continuum_dir")),
                 ("wave", o["wave2"] <= o["wave1"]),
                 ("forest", o["forest_w2"] <= o["forest_w1"]),
                 ("mock-tile", mock and tile),
                 ("tile-hpx", tile and o["save_by_hpx"]),
                 ("tile-exp", tile and o["exposures"] != "disable")):
        if v:
            bad.add(c)
    argv = []
    for k in rng.permutation(list(o)):
        v = o[k]
        f = "--" + k.replace("_", "-")
        if isinstance(v, bool):
            argv += [f] if v else []
        elif isinstance(v, list):
            argv += [f, *v]
        elif isinstance(v, float):
            argv += [f"{f}={v!r}"] if rng.random() < .5 else [f, repr(v)]
        elif v is not None:
            argv += [f"{f}={v}"]
    # positional words would be eaten by list options
    argv = extra + argv
    return argv, o, bad


def watch(tmp):
    """Every path below tmp that Python code or fitsio touches."""
    del _seen[:]
    watch.root = tmp

    def hook(ev, a):
        if ev in ("open", "os.mkdir", "os.listdir", "os.scandir", "os.remove",
                  "os.rename") and a and isinstance(a[0], (str, bytes)):
            p = os.fsdecode(a[0])
            if p.startswith(watch.root):
                _seen.append((ev, p))
    if not getattr(watch, "on", None):
        watch.on = True
        sys.addaudithook(hook)
        real = fitsio.FITS.__init__

        def init(self, filename, *a, **k):
            if str(filename).startswith(watch.root):
                _seen.append(("fits", str(filename)))
            return real(self, filename, *a, **k)
        fitsio.FITS.__init__ = init


def run_lines(case, mon, rng, tmp):
    for it in range(14):
        d = f"{tmp}/{it}"
        os.makedirs(d)
        argv, o, bad = line(rng, d, [CONDITIONS[(case["index"] + it) % len(
            CONDITIONS)]] if it < 5 else None)
        n = int(rng.choice([1, 2, 3]))
        unclear = ("required" not in bad and o.get("continuum_model")
                   == "input" and not o.get("input_continuum_dir"))

        keep = rng.random() < .3
        if keep:
            os.makedirs(f"{d}/out")
            open(f"{d}/out/delta-7.fits", "w").write("old")
        before = e2e.tree_hash(d)
        touched = []

        def fn(comm, argv=argv):
            import qsonic.scripts.qsonic_fit as m
            watch(d)
            old = sys.argv
            sys.argv = ["qsonic-fit"] + argv
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    m.main()
            except SystemExit as e:
                return ("exit", e.code, list(_seen))
            finally:
                sys.argv = old
            return ("returned", None, list(_seen))
        res = fakempi.run(n, fn, seed=case["seed"] % 991, timeout=60)
        wit = dict(argv=[a.replace(d, "@") for a in argv],
                   violated=sorted(bad), ranks=n)
        mon.count("lines")
        mon.count("single_condition", len(bad) == 1)
        mon.count("bad_choice", "choice" in bad)
        mon.count("bad_type", "type" in bad)
        mon.count("skip_bound", "skip" in bad or o["skip"] in (0., 1.))
        if not mon.check(res.all_ok(), "outcome", "not every rank ends",
                         actual=res.describe()[-800:], **wit):
            continue
        kinds = [v[:2] for v in res.values]
        for v in res.values:
            touched += v[2]
        mon.count("watched_events", len(touched))
        mon.count("ranks_agree")
        mon.check(len(set(kinds)) == 1, "agree", "ranks end differently",
                  actual=kinds, **wit)
        mon.state("line", *sorted(bad), n)
        if unclear:
            continue
        if bad:
            mon.count("rejected")
            mon.check(all(k == ("exit", 0) for k in kinds), "reject",
                      "incompatible options are not rejected", actual=kinds,
                      **wit)
            mon.check(not touched, "touch", "a rejected command line touches "
                      "files", actual=touched[:6], **wit)
            mon.equal(e2e.tree_hash(d), before, "touch",
                      "files after a rejected command line", **wit)
        else:
            # ends where the catalogue cannot be read
            mon.count("accepted")
            mon.check(all(k == ("exit", 1) for k in kinds)
                      and any("nocatalog" in p for _, p in touched),
                      "accept", "a valid command line is not accepted",
                      actual=kinds, touched=touched[:6], **wit)
            if o.get("outdir"):
                mon.check(os.path.isdir(f"{d}/out"), "accept",
                          "output directory of an accepted line", **wit)


def resolved(o):
    if o.get("true_continuum") or o.get("continuum_model") == "true":
        return "true"
    if o.get("input_continuum_dir"):
        return "input"
    return o.get("continuum_model", "picca")


def run_values(case, mon, rng, tmp):
    from qsonic.mpi_utils import mpi_parse
    import qsonic.scripts.qsonic_fit as m
    logic = getattr(m, "args_logic_fnc_qsonic_fit", None)
    synth.write_table(f"{tmp}/fid.fits", {
        "LAMBDA": np.linspace(3500, 7000, 71), "MEANFLUX": np.full(71, .8),
        "VAR_LSS": np.full(71, .1)}, extname="STATS")
    os.makedirs(f"{tmp}/ic")
    for it in range(12):
        argv, o, bad = line(rng, tmp, [])
        if bad or (o.get("continuum_model") == "input"
                   and not o.get("input_continuum_dir")):
            continue
        if it == 0:
            argv = ["-i", f"{tmp}/x", "--catalog", "c"]
            o = dict(input_dir=f"{tmp}/x", catalog="c")
            mon.count("defaults")
        n = int(rng.choice([1, 1, 2, 3]))

        def fn(comm):
            args = mpi_parse(m.get_parser(), comm, comm.Get_rank(),
                             options=argv, args_logic_fnc=logic)
            return vars(args)
        res = fakempi.run(n, fn, seed=it)
        wit = dict(argv=argv, ranks=n)
        if not mon.check(res.all_ok(), "parse", "valid options",
                         actual=res.describe()[-600:], **wit):
            continue
        want = dict(DEFAULTS, **o)
        want["continuum_model"] = model = resolved(o)
        want["true_continuum"] = model == "true"
        want["arms"] = sorted(set(want["arms"]))
        mon.count("repeated_arms", len(o.get("arms", [])) > len(
            set(o.get("arms", []))))
        mon.count("model_" + model)
        for v in res.values:
            mon.count("parsed")
            v = dict(v)
            got = list(v["arms"])
            mon.check(len(got) == len(set(got)), "arms", "an arm counts "
                      "twice", actual=got, **wit)
            v["arms"] = sorted(got)
            for k, x in want.items():
                mon.check(k in v and v[k] == x and (
                    not isinstance(x, bool) or isinstance(v[k], (
                        bool, np.bool_))), "value",
                    f"option {k}", actual=v.get(k), expected=x, **wit)
        mon.state("values", model, n, len(argv) > 10)
        if n == 1 and want["forest_w2"] - want["forest_w1"] > 50 and \
                want["wave2"] - want["wave1"] > 400:
            from argparse import Namespace
            from qsonic.continuum_models import (
                InputContinuumModel, PiccaContinuumModel, TrueContinuumModel)
            from qsonic.picca_continuum import PiccaContinuumFitter
            cls = dict(picca=PiccaContinuumModel, true=TrueContinuumModel,
                       input=InputContinuumModel)

            def build(comm):
                f = PiccaContinuumFitter(Namespace(**res.values[0]))
                return [type(x).__name__ for x in vars(f).values()
                        if isinstance(x, tuple(cls.values()))]
            r = fakempi.run(1, build)
            mon.count("fitters")
            mon.check(r.all_ok() and r.values[0] == [cls[model].__name__],
                      "model", "continuum model in force",
                      actual=r.values[0] or r.describe()[-500:],
                      expected=cls[model].__name__, **wit)


def setup_small(comm):
    small.shrink_varlss(nvarbins=14, min_pix=3, min_qso=1)


def run_e2e(case, mon, rng, tmp):
    """Options that show in the outputs of a complete run."""
    mode = str(rng.choice(["data", "mock"]))
    w = e2e.World(rng, f"{tmp}/w", mode=mode, n=24, npix=3,
                  truth=mode == "mock", reso=bool(rng.random() < .5))
    o = e2e.options(rng, w, mode, fid_vl=True, fid_mf=True, norm=False,
                    niter=int(rng.integers(1, 4)), min_rsnr=0., min_fsnr=0.,
                    model=str(rng.choice(["picca", "true"]))
                    if mode == "mock" else str(rng.choice(
                        ["picca", "input"])), reso=w.reso and bool(
                            rng.random() < .5))
    arms = list(o["arms"])
    o["arms"] = arms + arms[:int(rng.integers(0, 3))]
    n = int(rng.integers(1, 3))
    out = f"{tmp}/o"
    a = e2e.argv(w, o, out)
    rf = float(rng.choice([8., 10., 16.]))
    a += ["--rfdwave", str(rf)]
    no_out = rng.random() < .2
    if no_out:
        i = a.index("-o")
        del a[i:i + 2]
    before = e2e.tree_hash(tmp)
    res = prog.run_main("qsonic_fit", a, n=n, seed=case["seed"] % 997,
                        setup=setup_small)
    if not res.all_ok() and no_out:
        # the same run must then fail with an output directory too
        res2 = prog.run_main("qsonic_fit", a + ["-o", out], n=n,
                             seed=case["seed"] % 997, setup=setup_small)
        mon.check(not res2.all_ok(), "no-outdir", "fails only without an "
                  "output directory: " + res.describe())
    if not res.all_ok():
        mon.count("run_failed")
        return
    mon.count("e2e")
    wit = dict(argv=[str(x).replace(tmp, "@") for x in a], ranks=n)
    if no_out:
        mon.count("no_outdir")
        mon.equal(e2e.tree_hash(tmp), before, "no-outdir",
                  "files after a run without an output directory", **wit)
        return
    mon.state("e2e", mode, o["model"], o["coadd"], o["hpx"], n)
    names = [nm for nm, _, _ in synth.read_fits_tree(
        f"{out}/attributes.fits")]
    k = sorted(int(x[5:]) for x in names if x.startswith("CONT-")
               and x[5:].isdigit())
    niter = 1 if o["model"] == "true" else o["niter"]
    # stops early when converged
    mon.count("all_iterations", len(k) == niter and niter > 1)
    mon.check("CONT" in names and k == list(range(1, len(k) + 1))
              and 1 <= len(k) <= niter, "niter",
              "iterations in the attributes file", actual=k, expected=niter,
              **wit)
    att = {nm: d for nm, _, d in synth.read_fits_tree(
        f"{out}/attributes.fits")}
    mon.equal(len(att["CONT"]), int(round((e2e.R2 - e2e.R1) / rf)), "rfdwave",
              "bins of the mean continuum", **wit)
    (_, _, chi), = [x for x in synth.read_fits_tree(
        f"{out}/continuum_chi2_catalog.fits")]
    if o["model"] == "picca":
        x = chi["CONT_x"]
        mon.equal(1 if x.ndim == 1 else x.shape[1], o["order"] + 1, "order",
                  "continuum coefficients", **wit)
    for f in os.listdir(out):
        if not f.startswith("delta-"):
            continue
        for nm, h, d in synth.read_fits_tree(f"{out}/{f}"):
            H = {k.upper(): v for k, v in h.items() if k}
            mon.count("e2e_ext")
            mon.equal("RESOMAT" in d.dtype.names, bool(o["reso"]), "reso",
                      "resolution in the deltas", ext=nm, **wit)
            arm = nm.split("-")[1]
            mon.check(arm.lower() == "brz" if o["coadd"] != "disable" else
                      arm.upper() in arms, "arms", "arm of a delta",
                      actual=nm, **wit)
            mon.close(float(H["SMSCALE"]), o["smooth"], "smooth", "SMSCALE",
                      rtol=1e-6, atol=1e-9, **wit)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    with contextlib.redirect_stderr(io.StringIO()):
        globals()["run_" + case["kind"]](case, mon, rng, tmp)
