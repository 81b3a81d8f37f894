"""C23: outputs are a deterministic function of inputs."""
import json
import os
import pickle
import subprocess
import sys

import fitsio
import numpy as np

from qv import e2e, env, specs, synth
from checks import c20

RULE = ("the same jobs (fit on data, tile and mock trees, calibration and "
        "coaddition programs, catalogue, DLA and delta readers on inputs "
        "with several accepted names) in fresh interpreters that differ in "
        "hash seed, MALLOC_PERTURB_ byte, the value in every np.empty "
        "buffer, directory order, job order, what the process did before "
        "and whether the output directory was used before; every table, "
        "header and array compared with the first run; distinct = (kind, "
        "nuisance, job type, names)")
ASSUMPTIONS = ["values may differ by rounding (1e-6 relative to the largest "
               "of an array), names, counts and identifiers may not"]
REQUIRED = {"runs": 60, "cmp_fit": 20, "cmp_coadd": 20, "cmp_calib": 20,
            "cmp_catalog": 40, "cmp_dla": 40, "cmp_deltas": 40,
            "two_hdus": 5, "two_z": 5, "two_wave": 3, "two_delta": 3,
            "two_ids": 3, "v_hash": 12, "v_malloc": 12, "v_poison": 12, "calib_outcome_ok": 8,
            "v_dir": 12, "v_pre": 2, "v_twice": 2, "poisoned": 200,
            "output_values": 2000}


def cases(tier):
    k = 1 if tier == "quick" else 10
    return ([{"kind": "fit"}] * (8 * k) + [{"kind": "deltas"}] * (4 * k)
            + [{"kind": "names"}] * (4 * k))


def variants(rng, kind):
    """Environments of the runs; the first is the reference."""
    def hs():
        return {"PYTHONHASHSEED": str(int(rng.integers(1, 2**31)))}

    def pert():
        return {"MALLOC_PERTURB_": str(int(rng.integers(1, 256)))}
    v = [("reference", {"PYTHONHASHSEED": "0"})]
    if kind == "names":
        v += [("hash", hs()) for _ in range(5)]
        v += [("malloc", {**hs(), **pert()})]
        return v
    v += [("hash", hs()), ("hash", hs()), ("malloc", {**hs(), **pert()}),
          ("poison", {"PYTHONHASHSEED": "0", "QV_POISON": str(rng.choice(
              ["nan", "1e300", "-1e300", "0.7"]))}),
          ("dir", {"PYTHONHASHSEED": "0",
                   "QV_DIRSEED": str(int(rng.integers(1, 9999)))})]
    if rng.random() < .5:
        v += [("pre", {**hs(), "QV_PRE": "1",
                       "QV_ORDER": str(int(rng.integers(1, 99)))})]
    else:
        v += [("twice", {**hs(), "QV_TWICE": "1", "QV_POISON": str(
            rng.choice(["nan", "-3.3"]))})]
    return v


def run_variant(jobs, tmp, k, add):
    e = {x: y for x, y in os.environ.items() if x not in (
        "PYTHONHASHSEED", "MALLOC_PERTURB_")}
    e.update(add)
    out = f"{tmp}/r{k}.pickle"
    p = subprocess.run(
        [sys.executable, os.path.join(env.VERIF, "qv/detworker.py"),
         f"{tmp}/jobs.json", out, f"{tmp}/work{k}"], env=e,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    if not os.path.exists(out):
        raise RuntimeError("worker failed: " + p.stdout.decode()[-1500:])
    with open(out, "rb") as f:
        return pickle.load(f)


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                top = np.abs(a[np.isfinite(a)])
                top = top.max() if top.size else 0
                return bool(np.allclose(a, b, rtol=1e-6, atol=1e-6 * top,
                                        equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-6, atol=1e-12, equal_nan=True))
    return a == b


def compare(mon, ref, got, jobs, what, add):
    for j in jobs:
        r, g = ref[j["name"]], got[j["name"]]
        key = f"{j['type']}-{what}"
        mon.count("cmp_" + j["type"])
        mon.state(j["type"], what, j.get("tag", ""))
        wit = dict(job=j["name"], tag=j.get("tag", ""), environment=add)
        if not mon.check(set(r) == set(g), key,
                         f"{j['type']}: which outputs exist depends on "
                         f"{what}", only_first=sorted(set(r) - set(g))[:8],
                         only_second=sorted(set(g) - set(r))[:8], **wit):
            continue
        mon.count("output_values", len(r))
        bad = [k for k in r if not same(r[k], g[k])]
        mon.check(not bad, key, f"{j['type']}: values depend on {what}",
                  where=bad[:8], first=str(r[bad[0]])[:200] if bad else "",
                  second=str(g[bad[0]])[:200] if bad else "", **wit)


def go(mon, rng, tmp, jobs, kind):
    with open(f"{tmp}/jobs.json", "w") as f:
        json.dump(jobs, f, default=lambda x: x.item())
    ref = None
    for k, (what, add) in enumerate(variants(rng, kind)):
        got = run_variant(jobs, tmp, k, add)
        mon.count("runs")
        mon.count("v_" + what)
        mon.count("poisoned", got["@hits"])
        if ref is None:
            ref = got
            for j in jobs:
                if j.get("must") and "raised" in ref[j["name"]]:
                    mon.fail("failed", f"{j['type']} raises on valid input",
                             error=ref[j["name"]]["raised"], tag=j.get("tag"))
                mon.count(f"{j['type']}_outcome_"
                          + str(ref[j["name"]].get("outcome", "")).split(
                              "|")[0])
            continue
        compare(mon, ref, got, jobs, what, add)
    return ref


def ambiguous_catalog(rng, path, mon):
    """Several accepted HDUs and column names with different contents."""
    names = list(rng.permutation(["QSO_CAT", "ZCATALOG", "METADATA"]))[
        :int(rng.integers(2, 4))]
    with fitsio.FITS(path, "rw", clobber=True) as f:
        for k, nm in enumerate(names):
            n = int(rng.integers(5, 30))
            cols = {"TARGETID": synth.spread_targetids(rng, n),
                    "Z": rng.uniform(1, 4, n),
                    "SURVEY": rng.choice(["main", "sv1"], n)}
            for group in (("RA", "TARGET_RA"), ("DEC", "TARGET_DEC"),
                          ("LASTNIGHT", "LAST_NIGHT", "COADD_LASTNIGHT")):
                g = list(rng.permutation(group))[:int(rng.integers(
                    1, len(group) + 1)) if rng.random() < .5 else 1]
                for c in g:
                    cols[c] = (rng.integers(20200101, 20230101, n)
                               if "NIGHT" in c else rng.uniform(0, 60, n))
            f.write(list(cols.values()), names=list(cols), extname=nm)
    mon.count("two_hdus")
    return f"hdus={len(names)}"


def run_names(case, mon, rng, tmp):
    jobs = []
    for i in range(8):
        fn = f"{tmp}/cat{i}.fits"
        tag = ambiguous_catalog(rng, fn, mon)
        jobs.append(dict(type="catalog", name=f"cat{i}", file=fn, tag=tag,
                         kw=dict(is_mock=bool(rng.random() < .3),
                                 zmin=1.2, zmax=3.5)))
    for i in range(8):
        fn = f"{tmp}/dla{i}.fits"
        ids = [int(x) for x in synth.spread_targetids(rng, 3)]
        z = rng.uniform(2.4, 3., 3)
        n = int(rng.integers(3, 9))
        who = rng.integers(0, 3, n)
        cols = {"TARGETID": np.array(ids)[who], "NHI": rng.uniform(
            20.2, 21.5, n)}
        for c in rng.permutation(["Z", "Z_DLA"]):
            cols[str(c)] = z[who] - rng.uniform(.02, .4, n)
        with fitsio.FITS(fn, "rw", clobber=True) as f:
            f.write(list(cols.values()), names=list(cols), extname="DLACAT")
        mon.count("two_z")
        jobs.append(dict(type="dla", name=f"dla{i}", file=fn, ids=ids,
                         z=list(z), seed=int(rng.integers(1 << 30)),
                         tag="two z", must=True))
    for i in range(8):
        fn = f"{tmp}/delta-{i}.fits"
        with fitsio.FITS(fn, "rw", clobber=True) as f:
            for _ in range(3):
                d = synth.random_delta(rng, int(rng.integers(1, 1 << 40)))
                w = d["wave"]
                cols = {"LAMBDA": w}
                if rng.random() < .6:
                    cols["LOGLAM"] = np.log10(w + 1.)
                    mon.count("two_wave")
                cols["DELTA"] = d["delta"]
                if rng.random() < .6:
                    cols["DELTA_BLIND"] = d["delta"] * 2 + .01
                    mon.count("two_delta")
                for c in ("ivar", "weight", "cont"):
                    cols[c.upper()] = d[c]
                h = d["header"]
                if rng.random() < .6:
                    for x in ("MOCKID", "THING_ID"):
                        h[x] = int(rng.integers(1, 1 << 30))
                    mon.count("two_ids")
                o = rng.permutation(len(cols))
                k = list(cols)
                f.write([cols[k[x]] for x in o], names=[k[x] for x in o],
                        header=h, extname="x")
        jobs.append(dict(type="deltas", name=f"delta{i}", file=fn,
                         tag="two names", must=True))
    go(mon, rng, tmp, jobs, "names")


def fit_jobs(rng, root, name):
    """A run and an earlier one with other options on the same files (the
    wavelength grid is common to all spectra of a process)."""
    mode = str(rng.choice(["data", "data", "mock", "tile"]))
    exposures = mode == "data" and rng.random() < .4
    w = e2e.World(rng, root, mode=mode, n=int(rng.integers(18, 30)),
                  npix=int(rng.integers(3, 6)), exposures=exposures,
                  reso=bool(rng.random() < .4), truth=mode == "mock",
                  surveys=("main", "sv1") if mode == "data"
                  and rng.random() < .5 else ("main",),
                  bal=mode == "data" and rng.random() < .5)
    out, arms = [], None
    for k in range(2):
        o = e2e.options(rng, w, mode, niter=int(rng.integers(1, 3)),
                        fid_vl=bool(rng.random() < .7), norm=False,
                        exposures=str(rng.choice(["before", "after"]))
                        if exposures else "disable")
        arms = o["arms"] = arms or [str(x) for x in rng.permutation(
            o["arms"])]
        out.append(dict(
            type="fit", name=name, n=int(rng.integers(1, 4)) if not k else 1,
            seed=5, argv=[str(x) for x in e2e.argv(w, o, "@OUT")],
            tag=f"{mode} {o.get('exposures')} {o['coadd']}"))
    if rng.random() < .4:
        out[1]["argv"] += ["--forest-w1", "1270", "--forest-w2", "1430"]
    return dict(out[0], pre=out[1])


def run_fit(case, mon, rng, tmp):
    go(mon, rng, tmp, [fit_jobs(rng, f"{tmp}/w", "fit")], "fit")


def calib_input(rng, d):
    """Deltas with enough pixels in every variance bin for the fit."""
    files = {}
    for t in synth.spread_targetids(rng, int(rng.integers(45, 80))):
        x = synth.random_delta(rng, int(t), npix=int(rng.integers(60, 160)))
        n = x["wave"].size
        v = 10**rng.uniform(-3.4, 1.3, n)
        x["ivar"] = 1 / v
        x["weight"] = 1 / (v + .2)
        x["delta"] = rng.normal(0, 1, n) * np.sqrt(v * 1.1 + .2)
        files.setdefault(int(rng.integers(0, 14)), []).append(x)
    for k, ds in files.items():
        synth.write_delta_file(f"{d}/delta-{k}.fits", ds)
    return d


def run_deltas(case, mon, rng, tmp):
    jobs = []
    for i in range(5):
        parts = []
        dw = .8
        reso = bool(rng.random() < .5)
        for t in synth.spread_targetids(rng, int(rng.integers(20, 40))):
            parts += c20.contributions(
                rng, int(t), int(rng.integers(1, 4)), dw, reso,
                False, rng.uniform(0, 360), rng.uniform(-80, 80),
                False, mon)
        dirs = [f"{tmp}/d{i}-{k}" for k in range(int(rng.integers(1, 3)))]
        b = {}
        for k in rng.permutation(len(parts)):
            b.setdefault((dirs[int(rng.integers(0, len(dirs)))],
                          int(rng.integers(0, 12))), []).append(parts[k])
        for (d, k), ps in b.items():
            synth.write_delta_file(f"{d}/delta-{k}.fits", ps)
        jobs.append(dict(
            type="coadd", name=f"coadd{i}", must=True, tag=f"reso={reso}",
            argv=["-i", *[d for d in dirs if os.path.isdir(d)], "-o", "@OUT",
                  "--nproc", str(int(rng.integers(1, 4)))]))
        n = int(rng.integers(1, 4))
        jobs.append(dict(
            type="calib", name=f"calib{i}", n=n, seed=3, tag=f"ranks={n}",
            argv=["-i", calib_input(rng, f"{tmp}/c{i}"), "-o", "@OUT",
                  "--wave1", "3600.3", "--wave2", "3728.3", "--nwbins", "4",
                  "--nvarbins", "8", "--var1", "1e-3", "--var2", "10",
                  "--min-snr", "0"] + ["--var-use-cov"] * bool(
                      rng.random() < .3)))
        jobs[-1]["pre"] = dict(jobs[-1], n=1)
        jobs[-2]["pre"] = dict(jobs[-2])
    go(mon, rng, tmp, jobs, "deltas")


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    globals()["run_" + case["kind"]](case, mon, rng, tmp)
