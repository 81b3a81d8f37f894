"""C21: qsonic-calib uses every kept delta exactly once."""
import os

import numpy as np

from qv import prog, ref, small, synth
from checks import c14

RULE = ("random trees of 1-13 delta files (some empty of kept deltas) run "
        "through the real program on 1-5 ranks (more ranks than files "
        "included) with random combinations of id list (0, 1, many ids), BAL "
        "and survey removal from a catalogue, S/N limits (values exactly at "
        "the limits included) and covariance; saved statistics and stacked "
        "flux against a direct computation over the deltas that must be "
        "kept; distinct = (ranks, files, options)")
ASSUMPTIONS = ["the jackknife errors depend on the subsample a spectrum falls "
               "in, so they are compared in full only for one process and "
               "one file; C14 covers them in general"]
REQUIRED = {"runs": 40, "kept": 800, "removed": 300, "at_limit": 30,
            "by_list": 60, "by_bal": 40, "by_survey": 40, "multi_rank": 25,
            "uneven": 12, "more_ranks": 4, "empty_rank": 4, "one_id": 5,
            "stack_bins": 5000, "stack_empty": 300, "fits": 15,
            "errors": 3, "invariance": 20, "cov": 5, "gz": 3, "near": 1,
            "negative_snr": 100}


def cases(tier):
    k = 3 if tier == "quick" else 30
    return [{"kind": "run"}] * (64 * k)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    small.shrink_varlss(nsubsamples=12, min_pix=8, min_qso=2)
    nvb, nsub = 8, 12
    dw = float(rng.choice([.8, .8, 1.]))
    nwb = int(rng.integers(4, 7))
    W1 = 3600. + .37 * dw
    W2 = W1 + dw * 40 * nwb
    var1, var2 = 1e-3, 10.
    one = rng.random() < .25
    nfile = 1 if one else int(rng.integers(2, 14))
    n = int(rng.integers(45, 90))
    ids = synth.spread_targetids(rng, n)
    # neighbours that only a 64-bit integer tells apart
    near = rng.random() < .6
    if near:
        for j in range(0, 20, 2):
            ids[j] = ids[j] % 2**10 + 2**61 + 2**20 * j
            ids[j + 1] = ids[j] + 1
    ws = float(rng.choice([1., 1., 1e-5]))
    smin, smax = [(0., 100.), (.5, 3.), (1., 100.), (0., 2.), (-4., 2.)][
        int(rng.integers(0, 5))]
    gz = rng.random() < .15
    # population
    cat = dict(TARGETID=ids, Z=rng.uniform(2, 3, n),
               RA=rng.uniform(0, 360, n), DEC=rng.uniform(-60, 60, n),
               SURVEY=rng.choice(["main", "sv1", "sv3"], n, p=[.7, .15, .15]),
               LASTNIGHT=np.full(n, 20210101, "i4"))
    bal = np.zeros(n, bool)
    for c, k in (("450", 4), ("2000", 3)):
        vmin = np.full((n, k), -1.)
        vmax = np.full((n, k), -1.)
        for j in range(n):
            u = rng.random()
            if u < .08:
                q = int(rng.integers(0, k))
                vmin[j, q], vmax[j, q] = 1000., 3000.
                bal[j] = True
            elif u < .14:       # only one of both velocities
                (vmin if rng.random() < .5 else vmax)[j, 0] = 1000.
                if rng.random() < .3:
                    vmin[j, 0] = 0.
        cat[f"VMIN_CIV_{c}"], cat[f"VMAX_CIV_{c}"] = vmin, vmax
    incat = rng.random(n) < .9
    deltas = []
    gap = rng.uniform(W1, W2 - 25) if rng.random() < .7 else 1e9
    for j in range(n):
        for a in range(int(rng.choice([1, 1, 2]))):
            npx = int(rng.integers(20, 40 * nwb + 20))
            off = int(rng.integers(-15, 40 * nwb - 10))
            sn = rng.uniform(.1, 5)
            if rng.random() < .15:
                sn = -sn
                mon.count("negative_snr")
            if rng.random() < .1:
                sn = rng.choice([smin, smax])
            d = synth.random_delta(rng, ids[j], npix=npx, dwave=dw,
                                   meansnr=sn)
            d["wave"] = 3600. + dw * (off + np.arange(npx))
            v = 10**rng.uniform(-3.4, 1.3, npx)
            iv = 1 / v
            iv[rng.random(npx) < .08] = 0
            iv[np.abs(d["wave"] - gap - 12) < 12] = 0    # nobody has data
            d["ivar"] = iv
            d["weight"] = ws * iv / (1 + .2 * iv)
            d["delta"] = rng.normal(0, 1, npx) * np.sqrt(v * 1.1 + .2)
            d["delta"][iv == 0] = rng.choice([0., 7.])
            d["extname"] = f"{ids[j]}-{'BR'[a]}"
            d["row"] = j
            deltas.append(d)
    where = rng.integers(0, nfile, len(deltas))
    if rng.random() < .3 and nfile > 3:
        where[where == 1] = 0          # one fewer file
    order = rng.permutation(len(deltas))
    files = {}
    for i in order:
        files.setdefault(int(where[i]), []).append(deltas[int(i)])
    inp = tmp + "/in"
    os.makedirs(inp)
    for f, ds in files.items():
        synth.write_delta_file(f"{inp}/delta-{f}.fits", ds)
        if gz and f % 2:
            mon.count("gz")
            os.system(f"gzip {inp}/delta-{f}.fits")
    open(inp + "/attributes.txt", "w").write("x")
    out = tmp + "/out"
    argv = ["-i", inp, "-o", out, "--wave1", W1, "--wave2", W2, "--nwbins",
            nwb, "--nvarbins", nvb, "--var1", var1, "--var2", var2,
            "--min-snr", smin, "--max-snr", smax]
    rem_list = rng.random() < .5
    use_cat = rng.random() < .7
    rem_bal = rng.random() < .5
    keep = [None, ["main"], ["main", "sv3"]][int(rng.integers(0, 3))]
    cov = rng.random() < .2
    removed = {}
    if rem_list:
        k = int(rng.choice([0, 1, 1, 9]))
        lst = [int(x) for x in rng.choice(ids, k, replace=False)]
        if near and k > 1:
            lst = list(dict.fromkeys(lst + [int(ids[0]), int(ids[3])]))
            mon.count("near")
        mon.count("one_id", k == 1)
        np.savetxt(tmp + "/rm.txt", np.array(lst, int), fmt="%d")
        argv += ["--remove-targetid-list", tmp + "/rm.txt"]
        for t in lst:
            removed[t] = "by_list"
    if use_cat:
        synth.write_table(tmp + "/cat.fits", {
            k: np.asarray(v)[incat] for k, v in cat.items()},
            extname="ZCATALOG")
        argv += ["--catalog", tmp + "/cat.fits"]
        if rem_bal:
            for j in np.nonzero(bal & incat)[0]:
                removed[int(ids[j])] = "by_bal"
        if keep:
            for j in range(n):
                if incat[j] and cat["SURVEY"][j] not in keep:
                    removed[int(ids[j])] = "by_survey"
    if rem_bal:
        argv.append("--remove-bal-qsos")
    if keep:
        argv += ["--keep-surveys"] + keep
    if cov:
        argv.append("--var-use-cov")
    kept = []
    for i in order:
        d = deltas[int(i)]
        t = int(d["header"]["TARGETID"])
        s = d["header"]["MEANSNR"]
        if t in removed:
            mon.count(removed[t])
        elif smin < s < smax:
            kept.append(d)
            continue
        mon.count("at_limit", s in (smin, smax))
        mon.count("removed")
    nf = len(files)
    sizes = [1] if one else [int(x) for x in rng.choice(
        [2, 3, 4, 5, nf + 1 if nf < 6 else 5], 2, replace=False)]
    sizes = [s for s in sizes if s <= 6]
    prev = None
    for size in sizes:
        wit = dict(size=size, files=nf, rem_list=rem_list, use_cat=use_cat,
                   rem_bal=rem_bal, keep=keep, cov=cov, snr=(smin, smax))
        o = f"{out}{size}"
        argv[3] = o
        res = prog.run_main("qsonic_calib", argv, size,
                            seed=case["seed"] % 991)
        mon.count("runs")
        mon.count("multi_rank", size > 1)
        mon.count("uneven", size > 1 and nf % size != 0)
        mon.count("more_ranks", size > nf)
        mon.state("run", size, nf, rem_list, use_cat and rem_bal,
                  use_cat and keep, cov, smin)
        kinds = res.kinds()
        fn = f"{o}/qsonic-eta-fits-snr{smin:.1f}-{smax:.1f}" \
             "-variance-stats.fits"
        if kinds == ["exit"] * size:
            # more than 40% of the bins cannot be fitted
            mon.count("failed_fit")
            lists = [binned(kept, W1, W2, nwb, var1, var2, nvb)]
            e = c14.reference(lists, nwb, nvb, nsub)
            bad = sum(((e["npx"].reshape(nwb, nvb) >= 4)
                       & (e["nq"].reshape(nwb, nvb) >= 1)).sum(1) < 5)
            mon.check(bad / nwb > .4, "mpi", "program failed although enough "
                      "bins have data", bad=int(bad), **wit)
            continue
        if not mon.check(res.all_ok(), "mpi", "calibration program: "
                         + res.describe(), **wit):
            continue
        if not mon.check(os.path.exists(fn), "file", "no output file",
                         actual=os.listdir(o)):
            continue
        prev = judge(mon, case, fn, kept, prev, W1, W2, nwb, var1, var2, nvb,
                     nsub, dw, one, cov, wit)
        if size > nf or len(kept) < size:
            mon.count("empty_rank")
    mon.count("kept", len(kept))
    mon.seen()


def binned(kept, W1, W2, nwb, var1, var2, nvb):
    out = []
    for d in kept:
        w, dd, iv = d["wave"], d["delta"].copy(), d["ivar"]
        wb = np.floor((w - W1) / (W2 - W1) * nwb).astype(int)
        v = np.where(iv > 0, 1 / np.where(iv > 0, iv, 1), 1e9)
        vb = np.floor(np.log10(v / var1) / (np.log10(var2 / var1) / nvb)
                      ).astype(int)
        out.append((w, dd, iv, wb, vb))
    return out


def judge(mon, case, fn, kept, prev, W1, W2, nwb, var1, var2, nvb, nsub, dw,
          one, cov, wit):
    import fitsio
    with fitsio.FITS(fn) as f:
        st = f["VAR_STATS"].read()
        hd = dict(f["VAR_STATS"].read_header())
        vf = f["VAR_FUNC"].read()
        sf = f["STACKED_FLUX"].read()
    lists = [binned(kept, W1, W2, nwb, var1, var2, nvb)]
    e = c14.reference(lists, nwb, nvb, nsub)
    mon.equal(st["num_pixels"], e["npx"], "counts", "pixel counts of the "
              "kept deltas", **wit)
    mon.equal(st["num_qso"], e["nq"], "counts", "quasar counts of the kept "
              "deltas", **wit)
    sc = 1 + np.abs(e["var"]).max()
    for nm, q, t in (("mean_delta", "mean", 1e-9), ("var_delta", "var", 1e-8),
                     ("var_pipe", "cen", 1e-9), ("var2_delta", "var2", 1e-7)):
        mon.close(st[nm], e[q], "stats", nm, rtol=1e-7, atol=t * sc, **wit)
    mon.close(st["wave"], np.repeat(W1 + (W2 - W1) / nwb * (
        np.arange(nwb) + .5), nvb), "grid", "wavelength", rtol=1e-10)
    if one:
        mon.count("errors")
        ok = ~e["lone"]
        k = "eraw" if cov else "ereg"
        mon.check(np.allclose(st["e_var_delta"][ok], e[k][ok], rtol=1e-5,
                              atol=1e-7 * sc) or np.allclose(
            st["e_var_delta"][ok], e["ereg"][ok], rtol=1e-5, atol=1e-7 * sc),
            "errors", "jackknife error", **wit)
    if cov:
        mon.count("cov")
    covs = None
    if cov and "cov_var_delta" in st.dtype.names:
        covs = st["cov_var_delta"].reshape(nwb, nvb, nvb)
    sols = ref.varlss_fit(st["var_delta"], st["var_pipe"], st["e_var_delta"],
                          st["num_pixels"], st["num_qso"], nwb, nvb, 8, 2,
                          True, covs)
    x = W1 + (W2 - W1) / nwb * (np.arange(nwb) + .5)
    mon.close(vf["lambda"], x, "grid", "wavelength of the fits", rtol=1e-10)
    sm = ref.smooth_fit(x, sols)
    mon.finite(vf["var_lss"], "fit", "var_lss")
    mon.finite(vf["eta"], "fit", "eta")
    if sm is not None:
        mon.count("fits")
        for q, nm in enumerate(("var_lss", "eta")):
            mon.close(vf[nm], sm[:, q], "fit", nm + " is not the fit to the "
                      "saved statistics", rtol=2e-2,
                      atol=2e-2 * np.abs(sm[:, q]).max(), **wit)
    # stacked flux
    m = sf["lambda"].size
    num, den = np.zeros(m), np.zeros(m)
    for d in kept:
        idx = np.round((d["wave"] - W1) / dw).astype(int)
        for k in range(idx.size):
            if 0 <= idx[k] < m and d["weight"][k] > 0:
                num[idx[k]] += d["weight"][k] * (1 + d["delta"][k])
                den[idx[k]] += d["weight"][k]
    s = np.zeros(m)
    s[den > 0] = num[den > 0] / den[den > 0]
    mon.count("stack_bins", m)
    mon.count("stack_empty", (den == 0).sum())
    mon.check(abs(m - ((W2 - W1) / dw + 1)) < 1.01, "stack", "size of stack",
              actual=m)
    mon.close(sf["lambda"], W1 + dw * np.arange(m), "stack", "wavelength of "
              "the stack", atol=dw, rtol=0)
    mon.close(sf["stacked_flux"], s, "stack", "stacked flux", rtol=1e-8,
              atol=1e-10, **wit)
    if prev is not None:
        mon.count("invariance")
        for a, b, q in ((prev[0], st, "num_pixels"),
                        (prev[0], st, "mean_delta"),
                        (prev[0], st, "var_delta"),
                        (prev[1], sf, "stacked_flux")):
            mon.close(b[q], a[q], "invariance", q + " depends on the number "
                      "of processes", rtol=1e-7, atol=1e-8 * sc, **wit)
    return st, sf
