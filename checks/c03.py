"""C03: collectives and outcomes agree over ranks."""
import argparse
import contextlib
import functools
import io
import os
import sys
from argparse import Namespace

import numpy as np

from qv import e2e, fakempi, prog, small, synth

RULE = ("(a) mpi_fnc_bcast with callables of every kind, arguments, results "
        "(falsy, None, arrays, objects) and failures, mpi_parse with valid, "
        "invalid, refused and help lines; (b) masks, calibrators, catalogue "
        "readers, fiducials and lists on missing, empty, garbage, truncated "
        "and wrong files; (c) qsonic-fit and qsonic-calib with one injected "
        "fault (file of any kind, on any rank's share, output directory, "
        "empty shares, nothing left after cuts, more ranks than pixels); "
        "2-5 simulated ranks with random delays in random arrival order; the "
        "monitor compares the collective each rank enters; distinct = (kind, "
        "fault, ranks, outcome)")
ASSUMPTIONS = ["an error on one process may end the run by comm.Abort, which "
               "ends every process",
               "the simulated MPI serialises objects as mpi4py does"]
REQUIRED = {"bcast_ok": 300, "bcast_fail": 150, "parse_ok": 40,
            "parse_exit": 80, "reader_fail": 150, "reader_ok": 40,
            "programs": 40, "program_ok": 20, "program_failed": 15,
            "collectives": 1500, "arrival_orders": 40, "faults": 15,
            "empty_share": 1, "calib_ok": 2, "converged": 1,
            "bad_fits_some": 5, "bad_fits_all": 2}


def cases(tier):
    k = 2 if tier == "quick" else 20
    return ([{"kind": "fit"}] * (120 * k) + [{"kind": "calib"}] * (24 * k)
            + [{"kind": "bcast"}] * (24 * k) + [{"kind": "parse"}] * (12 * k)
            + [{"kind": "reader"}] * (30 * k))


def note(mon, res):
    mon.count("collectives", len(res.trace))
    for kind, _, order in res.trace:
        if len(order) > 1:
            mon.state("arrival", order)
    mon.count("arrival_orders", len({t[2] for t in res.trace
                                     if len(t[2]) > 1}))


def progress(mon, res, what, **wit):
    """No hang, no crossed collectives."""
    note(mon, res)
    ok = mon.check(res.deadlock is None, "hang", f"{what}: a process waits "
                   "for ever", actual=res.describe()[-900:], **wit)
    return mon.check(res.mismatch is None, "crossed", f"{what}: processes "
                     "are in different collectives",
                     actual=res.describe()[-900:], **wit) and ok


# --- broadcasting helpers -------------------------------------------------
class Plain:
    def __init__(self, k):
        self.k = k

    def method(self, x=0):
        return ("method", self.k, x)

    def fails(self, *a, **k):
        raise KeyError("method")

    def __eq__(self, o):
        return isinstance(o, Plain) and o.k == self.k

    __hash__ = None


class Callable:
    def __init__(self, v, exc=None):
        self.v, self.exc = v, exc

    def __call__(self, *a, **k):
        if self.exc:
            raise self.exc
        return self.v


def fail_with(exc, *a, **k):
    raise exc


def echo(*a, **k):
    return (a, k)


def rank_id():
    return ("pid", os.getpid())


def some_value(rng):
    v = [None, 0, 0., "", [], (), {}, False, True, -1, float("inf"), "text",
         np.array([]), np.arange(5), np.ones((2, 3)), Plain(3), {"a": [1, 2]},
         np.zeros(2, dtype=[("Z", "f8"), ("S", "U4")]), b"bytes", 10**30,
         np.float32(2.5), np.array("x"), {1, 2}, range(3)]
    return v[int(rng.integers(0, len(v)))]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def run_bcast(case, mon, rng, tmp):
    from qsonic import QsonicException
    from qsonic.mpi_utils import mpi_fnc_bcast
    jobs = []
    for it in range(30):
        v = some_value(rng)
        msg = str(rng.choice(["", "Error while reading.", "ü %s {x}", "a" *
                              300]))
        exc = [ValueError("v"), KeyError("k"), OSError(2, "no"),
               QsonicException("inner"), RuntimeError(), Exception(),
               ZeroDivisionError(), UnicodeDecodeError("utf8", b"x", 0, 1,
                                                       "bad"),
               AttributeError("__name__"), StopIteration(),
               AssertionError()][int(rng.integers(0, 11))]
        good = [("lambda", lambda v=v: v, (), {}),
                ("partial", functools.partial(echo, 1), (v,), {"k": 2}),
                ("function", echo, (v, 3), {"dtype": int}),
                ("object", Callable(v), (1,), {}),
                ("builtin", sorted, ([3, 1, 2],), {"reverse": True}),
                ("method", Plain(4).method, (5,), {}),
                ("class", Plain, (6,), {}),
                ("ufunc", np.add, (1, 2), {}),
                ("per-rank", rank_id, (), {}),
                ("kwargs", echo, (), {"a": v, "x": 1})]
        bad = [("function", functools.wraps(fail_with)(
            lambda *a, **k: fail_with(exc)), (v,), {}),
            ("lambda", lambda *a: fail_with(exc), (), {}),
            ("partial", functools.partial(fail_with, exc), (), {}),
            ("object", Callable(v, exc), (), {"k": v}),
            ("method", Plain(1).fails, (), {}),
            ("builtin", int, ("x",), {}),
            ("file", np.loadtxt, (f"{tmp}/none.txt",), {"dtype": int}),
            ("not callable", 7, (), {}),
            ("wrong arguments", echo.__class__, (), {}),
            ("nested partial", functools.partial(functools.partial(
                fail_with), exc), (), {})]
        isbad = rng.random() < .4
        src = bad if isbad else good
        jobs.append((isbad, msg) + src[int(rng.integers(0, len(src)))])
    n = int(rng.integers(2, 6))

    def fn(comm):
        out = []
        for isbad, msg, name, f, a, k in jobs:
            try:
                r = ("ok", mpi_fnc_bcast(f, comm, comm.Get_rank(), msg, *a,
                                         **k))
            except QsonicException as e:
                r = ("raised", str(e))
            except Exception as e:
                r = ("other", repr(e))
            out.append(r)
        return out
    res = fakempi.run(n, fn, seed=case["seed"] % 997)
    if not progress(mon, res, "mpi_fnc_bcast", ranks=n, jobs=[
            j[2] for j in jobs]):
        return
    if not mon.check(res.all_ok(), "bcast", "broadcast helper",
                     actual=res.describe()[-900:]):
        return
    for i, (isbad, msg, name, f, a, k) in enumerate(jobs):
        got = [v[i] for v in res.values]
        wit = dict(callable=name, ranks=n, actual=[str(g)[:120] for g in got])
        if isbad:
            mon.count("bcast_fail")
            mon.check(all(g == ("raised", msg) for g in got), "error",
                      "error of the master on every process", expected=msg,
                      **wit)
        else:
            mon.count("bcast_ok")
            mon.check(all(g[0] == "ok" and same(g[1], got[0][1])
                          for g in got), "value", "value of the master on "
                      "every process", **wit)
            if name != "per-rank":
                mon.check(same(got[0][1], f(*a, **k)), "value",
                          "value of the function", **wit)
        mon.state("bcast", isbad, name, n)
    # without MPI
    for isbad, msg, name, f, a, k in jobs[:10]:
        if isbad:
            mon.raises(lambda: mpi_fnc_bcast(f, None, 0, msg, *a, **k),
                       "error", "error without MPI",
                       types=(QsonicException,), callable=name)
        elif name != "per-rank":
            mon.check(same(mpi_fnc_bcast(f, None, 0, msg, *a, **k),
                           f(*a, **k)), "value", "value without MPI",
                      callable=name)


def run_parse(case, mon, rng, tmp):
    from qsonic.mpi_utils import mpi_parse

    def parser():
        p = argparse.ArgumentParser(prog="x")
        p.add_argument("--num", type=int, default=3)
        p.add_argument("--name", required=True)
        p.add_argument("--list", nargs="*", default=[1])
        p.add_argument("--pick", choices=["a", "b"], default="a")
        p.add_argument("--version", action="version", version="1")
        return p
    for it in range(12):
        n = int(rng.integers(2, 6))
        line, good = [
            (["--name", "q"], True), (["--name", "", "--num", "-1"], True),
            (["--name=z", "--list"], True), ([], False), (["--help"], False),
            (["--version"], False), (["--name", "q", "--num", "x"], False),
            (["--name", "q", "--pick", "c"], False),
            (["--name", "q", "--zz"], False),
            (["--name", "refused"], "logic"),
            (["--name", "q", "--list", "1", "2"], True)][
                int(rng.integers(0, 11))]
        seen = f"{tmp}/seen{it}"

        def logic(a):
            open(seen, "a").write("x")
            a.extra = 5
            return a.name != "refused"
        nolog = rng.random() < .3

        def fn(comm):
            # only the master sees the command line
            sys.argv = ["x"] + (line if comm.Get_rank() == 0 else ["--bad"])
            kw = {} if nolog else dict(args_logic_fnc=logic)
            with contextlib.redirect_stdout(io.StringIO()):
                return vars(mpi_parse(parser(), comm, comm.Get_rank(),
                                      options=None, **kw))
        res = fakempi.run(n, fn, seed=it + case["seed"] % 997)
        wit = dict(line=line, ranks=n, actual=res.describe()[-500:])
        if not progress(mon, res, "mpi_parse", line=line, ranks=n):
            continue
        ok = good is True or (good == "logic" and nolog)
        mon.state("parse", tuple(line), n, nolog)
        if ok:
            mon.count("parse_ok")
            exp = vars(parser().parse_args(line))
            if not nolog:
                exp["extra"] = 5
            mon.check(res.all_ok() and all(v == exp for v in res.values),
                      "parse", "options on every process", **wit)
        else:
            mon.count("parse_exit")
            mon.check(all(o and o[0] == "exit" for o in res.outcomes)
                      and len({o[1] for o in res.outcomes}) == 1, "parse",
                      "every process exits when the line is rejected", **wit)


# --- readers --------------------------------------------------------------
BREAK = ("missing", "empty", "garbage", "truncated", "columns", "extension",
         "directory", "uneven")


def good_file(kind, path, rng):
    n = 30
    lam = np.linspace(3500, 6000, n)
    if kind == "noise":
        synth.write_table(path, {"lambda": lam, "var_lss": np.full(n, .1),
                                 "eta": np.ones(n)}, extname="VAR_FUNC")
    elif kind == "flux":
        synth.write_table(path, {"lambda": lam, "stacked_flux": np.ones(n)},
                          extname="STACKED_FLUX")
    elif kind in ("meanflux", "varlss"):
        synth.write_table(path, {"LAMBDA": lam, "MEANFLUX": np.full(n, .8),
                                 "VAR_LSS": np.full(n, .1)}, extname="STATS")
    elif kind == "dla":
        synth.write_table(path, {
            "TARGETID": np.arange(10), "Z_DLA": np.full(10, 2.2),
            "NHI": np.full(10, 20.5)}, extname="DLACAT")
    elif kind == "sky":
        open(path, "w").write("line 4000 4010 OBS\nl2 1100 1101 RF\n")
    elif kind in ("catalog", "queue"):
        m = int(rng.integers(8, 30))
        synth.write_table(path, {
            "TARGETID": synth.spread_targetids(rng, m),
            "Z": rng.uniform(2, 3, m), "RA": rng.uniform(0, 90, m),
            "DEC": rng.uniform(-30, 30, m),
            "HPXPIXEL": rng.integers(0, 5, m),
            "SURVEY": np.full(m, "main"),
            "LASTNIGHT": np.full(m, 20210101)}, extname="ZCATALOG")
    elif kind == "list":
        np.savetxt(path, np.arange(4), fmt="%d")


def break_file(path, how, rng, kind):
    if how == "missing":
        os.remove(path)
    elif how == "empty":
        open(path, "w").close()
    elif how == "garbage":
        with open(path, "wb") as f:
            f.write(b"\xff\x00garbage\n" + bytes(rng.integers(
                0, 256, 3000, dtype="u1")))
    elif how == "truncated":
        b = open(path, "rb").read()
        open(path, "wb").write(b[:len(b) // 3])
    elif how == "directory":
        os.remove(path)
        os.makedirs(path)
    elif how in ("columns", "extension", "uneven"):
        (nm, _, d), = synth.read_fits_tree(path)
        os.remove(path)
        cols = {c: d[c] for c in d.dtype.names}
        if how == "columns":
            drop = [c for c in cols if c.upper() not in (
                "HPXPIXEL", "DEC")]
            drop = {"meanflux": ["MEANFLUX", "LAMBDA"],
                    "varlss": ["VAR_LSS", "LAMBDA"],
                    "dla": ["TARGETID", "Z_DLA", "NHI"]}.get(kind, drop)
            cols.pop(str(rng.choice(drop)))
        if how == "uneven":
            k = [c for c in cols if c.upper() == "LAMBDA"][0]
            cols[k] = np.cumsum(rng.uniform(1, 40, len(cols[k])))
        synth.write_table(path, cols, extname="OTHER" if how == "extension"
                          else nm)


def run_reader(case, mon, rng, tmp):
    from qsonic import QsonicException
    from qsonic.calibration import FluxCalibrator, NoiseCalibrator
    from qsonic.catalog import mpi_get_local_queue, mpi_read_quasar_catalog
    from qsonic.masks import DLAMask, SkyMask
    from qsonic.picca_continuum import PiccaContinuumFitter
    from qsonic.scripts.qsonic_calib import mpi_set_targetid_list_to_remove
    from qsonic.scripts.qsonic_fit import get_parser
    base = vars(get_parser().parse_args(["-i", "x", "--catalog", "c"]))

    def call(kind, p, comm):
        r = comm.Get_rank()
        if kind == "noise":
            x = NoiseCalibrator(p, comm, r)
            return [np.array(x.eta_interp(np.array([4000.])))]
        if kind == "flux":
            x = FluxCalibrator(p, comm, r)
            return [np.array(x.stacked_flux_interp(np.array([4000.])))]
        if kind in ("meanflux", "varlss"):
            f = PiccaContinuumFitter(Namespace(**dict(
                base, **{"fiducial_" + kind: p})))
            i = f.meanflux_interp if kind == "meanflux" else f.varlss_interp
            return [np.array(i(np.array([4000.])))]
        if kind == "dla":
            DLAMask(p, np.arange(5), comm, r)
            return [0]
        if kind == "sky":
            SkyMask(p, comm, r)
            return [0]
        if kind == "catalog":
            return [mpi_read_quasar_catalog(p, comm, r)]
        if kind == "queue":
            q = mpi_get_local_queue(p, comm, r, comm.Get_size())
            return [0] if isinstance(q, list) else None
        return [mpi_set_targetid_list_to_remove(Namespace(
            remove_targetid_list=p, catalog=None, remove_bal_qsos=False,
            keep_surveys=None, mock_analysis=False), comm, r)]

    kinds = ("noise", "flux", "meanflux", "varlss", "dla", "sky", "catalog",
             "queue", "list")
    for it in range(10):
        kind = str(rng.choice(kinds))
        how = str(rng.choice(BREAK)) if rng.random() < .8 else "none"
        if how in ("columns", "extension", "uneven") and kind in (
                "sky", "list"):
            how = "missing"
        if how == "uneven" and kind in ("dla", "catalog", "queue"):
            how = "columns"
        if how == "extension" and kind in ("catalog", "queue", "noise",
                                           "flux"):
            how = "columns"
        if how == "truncated" and kind in ("sky", "list"):
            how = "garbage"
        if how == "empty" and kind in ("list", "sky"):
            how = "garbage"
        p = f"{tmp}/{it}-{kind}" + (".txt" if kind in ("sky", "list")
                                    else ".fits")
        good_file(kind, p, rng)
        if how != "none":
            break_file(p, how, rng, kind)
        n = int(rng.integers(2, 6))

        def fn(comm):
            try:
                r = ("ok", call(kind, p, comm))
            except QsonicException as e:
                r = ("raised", str(e))
            except Exception as e:
                r = ("other", type(e).__name__ + str(e))
            # still in step
            return r, comm.allreduce(1)
        res = fakempi.run(n, fn, seed=it + case["seed"] % 997)
        wit = dict(reader=kind, fault=how, ranks=n)
        mon.state("reader", kind, how, n)
        if not progress(mon, res, "reading", **wit):
            continue
        if not mon.check(res.all_ok(), "reader", "reading on every process",
                         actual=res.describe()[-600:], **wit):
            continue
        got = [v[0] for v in res.values]
        if how == "none":
            mon.count("reader_ok")
            mon.check(all(g[0] == "ok" and g[1] is not None
                          and same(g[1], got[0][1]) for g in got), "reader",
                      "values of a good file on every process",
                      actual=[str(g)[:100] for g in got], **wit)
        else:
            mon.count("reader_fail")
            mon.check(all(g[0] == "raised" and g[1] == got[0][1] and g[1]
                          for g in got), "reader",
                      "documented error on every process",
                      actual=[str(g)[:160] for g in got], **wit)
            if kind not in ("catalog", "queue", "list"):
                mon.check(all(p in g[1] for g in got), "reader",
                          "the error names the file",
                          actual=got[0][1][:200], **wit)


# --- programs -------------------------------------------------------------
FLAGS = []


def setup(comm):
    import qsonic.picca_continuum as pc
    small.shrink_varlss(nvarbins=14, min_pix=3, min_qso=1)
    cls = pc.PiccaContinuumFitter
    orig = getattr(cls, "_qv_update", None) or cls.update_mean_cont
    cls._qv_update = orig
    FLAGS.clear()

    def update(self, *a, **k):
        r = orig(self, *a, **k)
        FLAGS.append(bool(r))
        return r
    cls.update_mean_cont = update


def flags(comm):
    return list(FLAGS)


def agree(mon, res, what, **wit):
    mon.count("programs")
    if not progress(mon, res, what, **wit):
        return None
    if res.abort is not None:
        mon.count("program_failed")
        mon.count("aborts")
        return "abort"
    kinds = {(o[0], o[1] if o[0] == "exit" else None) if o else None
             for o in res.outcomes}
    mon.check(len(kinds) == 1 and kinds <= {("ok", None), ("exit", 0),
                                            ("exit", 1)}, "outcome",
              f"{what}: processes end differently",
              actual=res.describe()[-900:], **wit)
    k = "ok" if res.all_ok() else "exit"
    mon.count("program_ok" if k == "ok" else "program_failed")
    return k


def run_fit(case, mon, rng, tmp):
    mode = str(rng.choice(["data", "data", "mock", "tile"]))
    exposures = mode == "data" and rng.random() < .3
    npix = int(rng.integers(2, 7))
    # fits that fail, on some or on all processes
    bad = str(rng.choice(["", "", "", "some", "some", "all"]))
    if exposures and rng.random() < .5:
        bad = "some"
    nbad = int(rng.integers(1, npix)) if bad == "some" else npix

    def kindof(q, pix):
        return "negative" if bad and q["HPXPIXEL"] in pix[:nbad] else None
    w = e2e.World(rng, f"{tmp}/w", mode=mode, n=int(rng.integers(12, 34)),
                  npix=npix, exposures=exposures, truth=mode == "mock",
                  surveys=("main", "sv1") if mode == "data"
                  and rng.random() < .4 else ("main",),
                  bal=mode == "data" and rng.random() < .5, kindof=kindof)
    model = "picca"
    if rng.random() < .25:
        model = "true" if mode == "mock" else "input"
    o = e2e.options(rng, w, mode, niter=int(rng.integers(1, 6)), model=model,
                    exposures=str(rng.choice(["before", "after"]))
                    if exposures else "disable")
    if exposures and bad == "some":
        o["exposures"] = "after"
        k = str(rng.choice(["noise", "flux"]))
        if not (o["noise"] or o["flux"]):
            o[k] = True
    faults = ["none"] * 9 + ["catalog", "spectra-gone",
              "spectra-bad", "spectra-all-gone", "outdir-file", "high-snr",
              "one-pixel-cut", "many-ranks", "many-ranks", "few-valid"]
    for k in ("noise", "flux", "sky", "dla"):
        if o[k]:
            faults += [k]
    if o["fid_mf"] or o["fid_vl"]:
        faults += ["fid"]
    if mode == "data" and not w.bal:
        faults += ["bal-columns"]
    fault = str(rng.choice(faults))
    if fault == "high-snr":
        o["min_fsnr"] = float(rng.choice([30., 1e6]))
    if fault == "few-valid":
        o["min_fsnr"] = 6.
    if bad:
        # keep them until the fit
        o["min_fsnr"] = o["min_rsnr"] = -1e3
        mon.count("bad_fits_" + bad, model == "picca")
    a = e2e.argv(w, o, f"{tmp}/o")
    n = int(rng.integers(2, 6))
    if fault == "many-ranks":
        n = npix + int(rng.integers(1, 3))
    else:
        n = min(n, npix)
    if fault == "bal-columns":
        a += ["--bal-mask"]
    how = ""
    if fault == "catalog":
        how = str(rng.choice(["missing", "empty", "garbage", "truncated"]))
        break_file(w.catalog, how, rng, "catalog")
    elif fault in ("noise", "flux", "dla", "fid", "sky"):
        p = w.root + {"noise": "/noise.fits", "flux": "/flux.fits",
                      "fid": "/fid.fits"}.get(fault, "")
        if fault in ("dla", "sky"):
            p = a[a.index(f"--{fault}-mask") + 1]
        how = str(rng.choice(["missing", "garbage", "directory"]))
        break_file(p, how, rng, fault)
    elif fault.startswith("spectra") or fault == "one-pixel-cut":
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk(w.indir)
                       for f in fs if f.startswith(("coadd", "spectra")))
        if fault == "spectra-all-gone":
            pick = files
        else:
            pick = [files[int(rng.integers(0, len(files)))]]
        how = str(rng.choice(["missing", "garbage", "truncated", "empty"])) \
            if fault == "spectra-bad" else "missing"
        for p in pick:
            break_file(p, how, rng, "spectra")
    elif fault == "outdir-file":
        open(f"{tmp}/o", "w").close()
    mon.count("faults", fault != "none")
    mon.count("empty_share", fault == "many-ranks" and n > npix)
    seed = case["seed"] % 997
    res = prog.run_main("qsonic_fit", a, n=n, seed=seed, setup=setup,
                        after=flags, timeout=120)
    out = agree(mon, res, "qsonic-fit", mode=mode, fault=fault, how=how,
                ranks=n, model=model, exposures=o["exposures"], bad_fits=bad)
    mon.state("fit", mode, fault, how, n, out, bad)
    if out == "ok":
        mon.count("converged", any(res.values[0]))
        mon.check(all(v == res.values[0] for v in res.values), "converged",
                  "processes disagree on convergence",
                  actual=[str(v) for v in res.values], ranks=n)
    # processes without a share cannot run and abort
    tol = (e2e.R2 - e2e.R1) * o["skip"]
    share = {q["TILEID"] if mode == "tile" else q["HPXPIXEL"] for q in w.q
             if e2e.W1 / (e2e.R2 - tol) - 1 <= q["Z"] <= e2e.W2 / (
                 e2e.R1 + tol) - 1
             and (mode == "mock" or q["SURVEY"] in o["surveys"])}
    if out and n <= len(share) and fault in ("catalog", "noise", "flux",
                                             "sky", "dla"):
        mon.count("program_error")
        mon.check(out == "exit" and res.outcomes[0][1] == 1, "program-error",
                  "a file that cannot be read ends every process in the "
                  "same way", actual=res.describe()[-600:], fault=fault,
                  how=how, ranks=n)


def run_calib(case, mon, rng, tmp):
    ds = []
    dwave = float(rng.choice([.8, .4, 1.6]))
    for t in synth.spread_targetids(rng, int(rng.integers(20, 60))):
        d = synth.random_delta(rng, int(t), npix=150, dwave=dwave)
        v = 10**rng.uniform(-2.5, 1, 150)
        d["ivar"] = 1 / v
        d["delta"] = rng.normal(0, 1, 150) * np.sqrt(v + .2)
        d["weight"] = 1 / (v + .2)
        ds.append(d)
    nf = int(rng.integers(1, 6))
    for k in range(nf):
        synth.write_delta_file(f"{tmp}/in/delta-{k}.fits", ds[k::nf])
    n = int(rng.integers(2, 6))
    ids = [d["header"]["TARGETID"] for d in ds]
    a = ["-i", f"{tmp}/in", "-o", f"{tmp}/o", "--wave1", "3600", "--wave2",
         str(int(3599 + 150 * dwave)), "--nwbins", "3", "--nvarbins", "10", "--var1", "1e-3",
         "--var2", "20"]
    fault = str(rng.choice(["none", "none", "none", "no-files", "bad-file",
                            "list", "catalog", "snr", "none-left", "line",
                            "outdir-file", "nobal", "one-file-cut"]))
    if fault == "no-files":
        a[1] = f"{tmp}/elsewhere"
    elif fault == "bad-file":
        break_file(f"{tmp}/in/delta-{int(rng.integers(0, nf))}.fits", str(
            rng.choice(["empty", "garbage", "truncated"])), rng, "")
    elif fault == "list":
        a += ["--remove-targetid-list", f"{tmp}/none.txt"]
    elif fault == "catalog":
        a += ["--catalog", f"{tmp}/none.fits"]
    elif fault == "snr":
        a += ["--min-snr", "50"]
    elif fault == "none-left":
        np.savetxt(f"{tmp}/rm.txt", np.array(ids), fmt="%d")
        a += ["--remove-targetid-list", f"{tmp}/rm.txt"]
    elif fault == "one-file-cut":
        np.savetxt(f"{tmp}/rm.txt", np.array(ids[0::nf]), fmt="%d")
        a += ["--remove-targetid-list", f"{tmp}/rm.txt"]
    elif fault == "line":
        a += [["--nwbins", "x"], ["--nope"], ["--help"]][
            int(rng.integers(0, 3))]
    elif fault == "outdir-file":
        open(f"{tmp}/o", "w").close()
    elif fault == "nobal":
        good_file("catalog", f"{tmp}/cat.fits", rng)
        a += ["--catalog", f"{tmp}/cat.fits", "--remove-bal-qsos"]
    mon.count("faults", fault != "none")
    before = e2e.tree_hash(tmp)
    with contextlib.redirect_stdout(io.StringIO()):
        res = prog.run_main("qsonic_calib", a, n=n, seed=case["seed"] % 997,
                            setup=setup, timeout=120)
    out = agree(mon, res, "qsonic-calib", fault=fault, files=nf, ranks=n)
    mon.state("calib", fault, n, n > nf, out)
    mon.count("calib_ok", out == "ok")
    if fault == "line":
        mon.check(all(x and x[0] == "exit" and x[1] == 0
                      for x in res.outcomes), "program-error",
                  "rejected command line of qsonic-calib",
                  actual=res.describe()[-500:])
        mon.check(not os.path.exists(f"{tmp}/o")
                  and e2e.tree_hash(tmp) == before, "program-error",
                  "a rejected command line writes something")
    if fault in ("list", "catalog", "nobal") and out:
        mon.check(out == "exit" and res.outcomes[0][1] == 1, "program-error",
                  "a file that cannot be used ends every process in the "
                  "same way", actual=res.describe()[-600:], fault=fault)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    with contextlib.redirect_stderr(io.StringIO()):
        globals()["run_" + case["kind"]](case, mon, rng, tmp)
