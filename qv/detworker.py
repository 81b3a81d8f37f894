"""One run of a list of jobs in a fresh interpreter, for C23.

The environment decides the nuisance conditions: PYTHONHASHSEED,
MALLOC_PERTURB_ (libc fills what it hands out and takes back), QV_POISON
(value put in every np.empty buffer), QV_DIRSEED (order of directory
listings), QV_PRE (what the process did before), QV_ORDER (order of the jobs),
QV_TWICE (program run twice into the same directory).  Usage: detworker.py jobs.json out.pickle workdir
"""
import contextlib
import glob
import io
import json
import os
import pickle
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def scramble(seed):
    rnd = random.Random(seed)
    ls, sc, gg = os.listdir, os.scandir, glob.glob

    def listdir(*a, **k):
        x = sorted(ls(*a, **k))
        rnd.shuffle(x)
        return x

    class Scan:
        def __init__(self, *a, **k):
            with sc(*a, **k) as it:
                self.x = sorted(it, key=lambda e: e.name)
            rnd.shuffle(self.x)
            self.it = iter(self.x)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def globf(*a, **k):
        x = sorted(gg(*a, **k))
        rnd.shuffle(x)
        return x
    os.listdir, os.scandir, glob.glob = listdir, Scan, globf


if os.environ.get("QV_DIRSEED"):
    scramble(int(os.environ["QV_DIRSEED"]))
from qv import env  # noqa: E402

env.setup()
import numpy as np  # noqa: E402

from qv import poison, prog, small, specs, synth  # noqa: E402


def tree(root, ordered):
    out = {}
    for f in sorted(os.listdir(root)):
        names = []
        seen = {}
        for nm, h, d in synth.read_fits_tree(f"{root}/{f}"):
            k = f"{f}/{nm}"
            seen[k] = seen.get(k, -1) + 1
            k += f"#{seen[k]}" if seen[k] else ""
            names.append(nm)
            for c in d.dtype.names:
                out[f"{k}/{c}"] = np.array(d[c])
            for x, v in h.items():
                out[f"{k}:{x}"] = v
        if ordered:
            out[f"{f}:extensions"] = "|".join(names)
    return out


def job_fit(j, work):
    out = f"{work}/{j['name']}"

    def setup(comm):
        small.shrink_varlss(nvarbins=12, min_pix=4, min_qso=1)
    a = [out if x == "@OUT" else x for x in j["argv"]]
    for _ in range(2 if os.environ.get("QV_TWICE") else 1):
        res = prog.run_main("qsonic_fit", a, n=j["n"], seed=j["seed"],
                            setup=setup)
    r = tree(out, True) if os.path.isdir(out) else {}
    r["outcome"] = "|".join(map(str, res.kinds()))
    return r


def job_calib(j, work):
    out = f"{work}/{j['name']}"

    def setup(comm):
        small.shrink_varlss(nsubsamples=12, min_pix=4, min_qso=1)
    a = [out if x == "@OUT" else x for x in j["argv"]]
    for _ in range(2 if os.environ.get("QV_TWICE") else 1):
        res = prog.run_main("qsonic_calib", a, n=j["n"], seed=j["seed"],
                            setup=setup)
    r = tree(out, True) if os.path.isdir(out) else {}
    r["outcome"] = "|".join(map(str, res.kinds()))
    return r


def job_coadd(j, work):
    from checks import c20
    out = f"{work}/{j['name']}"
    os.makedirs(out)
    for _ in range(2 if os.environ.get("QV_TWICE") else 1):
        c20.run_program([out if x == "@OUT" else x for x in j["argv"]])
    return tree(out, False)


def attempt(f):
    try:
        return f()
    except Exception as e:
        return {"raised": type(e).__name__ + ": " + str(e)[:200]}


def job_catalog(j, work):
    from qsonic.catalog import read_quasar_catalog
    c = read_quasar_catalog(j["file"], **j["kw"])
    return {"order": ",".join(sorted(c.dtype.names)),
            **{n: np.array(c[n]) for n in c.dtype.names}}


def job_dla(j, work):
    from qsonic.masks import DLAMask
    rng = np.random.default_rng(j["seed"])
    cat = specs.catalog(rng, 3, z=np.array(j["z"]))
    cat["TARGETID"] = j["ids"]
    wave = specs.grids(rng, ["B", "R"], nlo=200, nhi=260)
    sl = specs.build(cat, specs.data_dict(rng, wave, 3))
    m = DLAMask(j["file"])
    out = {}
    for s in sl:
        s.set_forest_region(3000., 9000., 900., 1215.)
        m.apply(s)
        for a in s.forestwave:
            out[f"{s.targetid}{a}"] = np.array(s.forestflux[a])
            out[f"{s.targetid}{a}i"] = np.array(s.forestivar[a])
    return out


def job_deltas(j, work):
    from qsonic.io import read_deltas
    out = {}
    for k, d in enumerate(read_deltas(j["file"])):
        out[f"{k}id"] = d.targetid
        for x in ("wave", "delta", "ivar", "weight", "cont", "reso"):
            v = getattr(d, x)
            if v is not None:
                out[f"{k}{x}"] = np.array(v)
        out[f"{k}blind"] = bool(d._is_blinded) if hasattr(
            d, "_is_blinded") else None
    return out


def main():
    jobs = json.load(open(sys.argv[1]))
    work = sys.argv[3]
    os.makedirs(work)
    val = os.environ.get("QV_POISON")
    res = {}
    with (poison.poison(float(val)) if val else contextlib.nullcontext()) \
            as hits, contextlib.redirect_stderr(io.StringIO()):
        run = {k[4:]: f for k, f in globals().items()
               if k.startswith("job_")}
        specs.reset_statics()
        if os.environ.get("QV_ORDER"):
            random.Random(int(os.environ["QV_ORDER"])).shuffle(jobs)
        for j in jobs:
            specs.reset_statics()
            if os.environ.get("QV_PRE") and j.get("pre"):
                p = dict(j["pre"], name="pre-" + j["name"])
                attempt(lambda: run[p["type"]](p, work))
            res[j["name"]] = attempt(lambda: run[j["type"]](j, work))
        res["@hits"] = hits["n"] if hits else 0
    with open(sys.argv[2], "wb") as f:
        pickle.dump(res, f)


main()
