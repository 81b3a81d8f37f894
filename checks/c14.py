"""C14: variance statistics and var_lss/eta fits."""
import numpy as np

from qv import fakempi
from checks.c15 import jackknife

RULE = ("random pixels (several bins, under/overflow in wavelength and "
        "variance, masked pixels) added on 1-4 ranks with and without "
        "covariance, in histories add -> stats -> refused add -> reset -> "
        "add; every bin against a direct computation; fits against bounded "
        "linear least squares on the fitter's own statistics with starved "
        "bins, half-minimum fallback and > 40% failures; distinct = (kind, "
        "ranks, cov, eta, failures)")
ASSUMPTIONS = ["jackknife sample of the i-th spectrum of rank r is "
               "(r*nsub//size + i) mod nsub, as documented by the start "
               "index", "pixels are not within rounding of a bin edge"]
REQUIRED = {"stats": 60, "bins": 2000, "filled": 800, "masked": 300,
            "overflow": 1000, "cov": 20, "fits": 40, "fit_bins": 90,
            "starved": 15, "fallback": 10, "toomany": 6, "refused": 30,
            "reset": 30, "invariance": 20, "mpi": 40, "smooth": 10, "default_bins": 30}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return [{"kind": "stats"}] * (55 * k) + [{"kind": "fit"}] * (60 * k)


def make_pixels(rng, w1, w2, nwb, var1, var2, nvb, nspec, npix):
    out = []
    dl = np.log10(var2 / var1) / nvb
    dw = (w2 - w1) / nwb
    for _ in range(nspec):
        n = int(rng.integers(max(2, npix // 2), npix))
        if rng.random() < .01:
            n = int(rng.integers(1000, 1800))
        far = int(rng.choice([1, 1, 4]))
        wb = rng.integers(-far, nwb + far, n)
        wb = np.where(rng.random(n) < .9, np.clip(wb, 0, nwb - 1), wb)
        wave = w1 + dw * (wb + rng.uniform(.001, .999, n))
        vb = rng.integers(-1, nvb + 1, n)
        if n > 900:
            # a long spectrum of even quality
            vb[rng.random(n) < .9] = int(rng.integers(nvb))
        var = var1 * 10**(dl * (vb + rng.uniform(.001, .999, n)))
        ivar = 1 / var
        ivar[rng.random(n) < .1] = 0
        delta = rng.normal(.05, 1, n) * np.sqrt(var + .1)
        delta[ivar == 0] = 0 if rng.random() < .5 else 3.0
        o = np.argsort(wave)
        out.append((wave[o], delta[o], ivar[o], wb[o], vb[o]))
    return out


def reference(lists, nwb, nvb, nsub):
    """Statistics of the pixels; lists[r] are the spectra of rank r."""
    size = len(lists)
    nb = nwb * nvb
    M, W = np.zeros((nsub, 4, nb)), np.zeros((nsub, nb))
    npx, nq = np.zeros(nb, int), np.zeros(nb, int)
    for r, lst in enumerate(lists):
        for i, (wave, d, iv, wb, vb) in enumerate(lst):
            k = (r * nsub // size + i) % nsub
            hit = set()
            for j in range(d.size):
                if iv[j] <= 0 or not (0 <= wb[j] < nwb) or not (
                        0 <= vb[j] < nvb):
                    continue
                b = wb[j] * nvb + (nvb - 1 - vb[j])
                hit.add(b)
                npx[b] += 1
                W[k, b] += 1
                for q, x in enumerate((d[j], d[j]**2, d[j]**4, 1 / iv[j])):
                    M[k, q, b] += x
            for b in hit:
                nq[b] += 1
    mean, jack, lone = jackknife(M, W)
    dj = jack - jack.mean(0)
    f = (nsub - 1) / nsub
    cov = {}
    for q in range(4):
        cov[q] = f * np.einsum("ij,ik->jk", dj[:, q], dj[:, q])
    m = mean[0]
    var = mean[1] - m**2
    var2 = mean[2] - var**2
    var2[npx > 0] /= npx[npx > 0]
    v = {q: np.diag(cov[q]) for q in range(4)}
    e2 = v[1] + 4 * m**2 * v[0] + 2 * v[0]**2
    reg = np.maximum(e2, var2)
    c1 = cov[1].copy()
    for i in range(nb):
        for j in range(nb):
            c = cov[0][i, j]
            c1[i, j] += (v[0][i] * v[0][j] + c**2 + 2 * c * m[i] * m[j]
                         + v[0][i] * m[j]**2 + v[0][j] * m[i]**2)
    return dict(npx=npx, nq=nq, mean=m, var=var, var2=var2, cen=mean[3],
                ereg=np.sqrt(reg), eraw=np.sqrt(v[1]), ecen=np.sqrt(v[3]),
                cov=c1, lone=lone)


def grab(f, nwb, nvb):
    c = f.cov_var_delta
    return dict(npx=f.num_pixels.copy(), nq=f.num_qso.copy(),
                mean=f.mean_delta.copy(), var=f.var_delta.copy(),
                var2=f.var2_delta.copy(), cen=f.var_centers.copy(),
                e=f.e_var_delta.copy(), ecen=f.e_var_centers.copy(),
                cov=None if c is None else c.copy(),
                waveobs=f.waveobs.copy())


def judge(mon, g, e, nwb, nvb, w1, w2, wit):
    mon.count("stats")
    mon.count("bins", nwb * nvb)
    mon.count("filled", (e["npx"] > 0).sum())
    mon.close(g["waveobs"], w1 + (w2 - w1) / nwb * (np.arange(nwb) + .5),
              "grid", "wavelength centres", rtol=1e-10)
    if not mon.check(g["npx"].shape == e["npx"].shape, "counts", "shape"):
        return
    mon.equal(g["npx"], e["npx"], "counts", "pixel counts", **wit)
    mon.equal(g["nq"], e["nq"], "counts", "quasar counts", **wit)
    a = 1e-9
    mon.close(g["mean"], e["mean"], "mean", "mean delta", rtol=1e-8, atol=a,
              **wit)
    mon.close(g["var"], e["var"], "var", "variance of delta", rtol=1e-8,
              atol=1e-8 * (1 + np.abs(e["var"]).max()), **wit)
    mon.close(g["var2"], e["var2"], "var2", "fourth-moment error",
              rtol=1e-7, atol=1e-8 * (1 + np.abs(e["var2"]).max()), **wit)
    mon.close(g["cen"], e["cen"], "centres", "mean pipeline variance",
              rtol=1e-8, atol=1e-12, **wit)
    ok = ~e["lone"]
    at = 1e-7 * (1 + np.abs(e["var"]).max())
    mon.close(g["ecen"][ok], e["ecen"][ok], "ecen",
              "error of the pipeline variance", rtol=1e-6, atol=1e-7, **wit)
    if g["cov"] is None:
        mon.close(g["e"][ok], e["ereg"][ok], "evar", "jackknife error",
                  rtol=1e-6, atol=at, **wit)
    else:
        mon.count("cov")
        mon.check(np.allclose(g["e"][ok], e["eraw"][ok], rtol=1e-6, atol=at)
                  or np.allclose(g["e"][ok], e["ereg"][ok], rtol=1e-6,
                                 atol=at), "evar", "jackknife error", **wit)
        for k in range(nwb):
            s = np.arange(k * nvb, (k + 1) * nvb)
            o = np.nonzero(ok[s])[0]
            mon.close(g["cov"][k][np.ix_(o, o)],
                      e["cov"][np.ix_(s[o], s[o])], "cov",
                      "covariance of the variance", rtol=1e-6,
                      atol=at**2 + 1e-9 * np.abs(e["cov"]).max(), **wit)


def run_stats(case, mon, rng):
    from qsonic.picca_continuum import VarLSSFitter
    nwb, nvb = int(rng.integers(1, 6)), int(rng.integers(3, 8))
    nsub = int(rng.integers(4, 14))
    w1, w2 = 3600., 3600. + 130. * nwb + float(rng.uniform(0, 60))
    var1, var2 = 1e-3, 8.
    cov = bool(rng.random() < .4)
    size = int(rng.integers(1, 5))
    rounds = []
    for _ in range(2):
        rounds.append([make_pixels(rng, w1, w2, nwb, var1, var2, nvb, int(
            rng.integers(0, 9)), 80) for r in range(size)])
    if not any(rounds[0]):
        rounds[0][0] = make_pixels(rng, w1, w2, nwb, var1, var2, nvb, 4, 80)
    none_comm = size == 1 and rng.random() < .5
    # bins of 120 A unless told otherwise
    x = float(rng.integers(1, 60)) + float(rng.uniform(-.45, .45))
    if x > .6:
        f = VarLSSFitter(w1, w1 + 120. * x)
        mon.count("default_bins")
        mon.equal(f.nwbins, int(round(x)), "grid", "default number of bins")
        mon.close(np.diff(f.waveobs), np.full(f.nwbins - 1, 120. * x
                                              / f.nwbins), "grid",
                  "default bin width", rtol=1e-9)

    def fn(comm):
        r = comm.Get_rank()
        f = VarLSSFitter(w1, w2, nwb, var1, var2, nvarbins=nvb,
                         nsubsamples=nsub, use_cov=cov,
                         comm=None if none_comm else comm)
        out = []
        for per in rounds:
            same = True
            for wave, d, iv, _, _ in per[r]:
                b = [x.copy() for x in (wave, d, iv)]
                f.add(wave, d, iv)
                same &= all(np.array_equal(x, y) for x, y in zip(
                    b, (wave, d, iv)))
            f.calculate_subsampler_stats()
            g = grab(f, nwb, nvb)
            f.calculate_subsampler_stats()
            g2 = grab(f, nwb, nvb)
            rep = all(np.array_equal(g[k], g2[k], equal_nan=True)
                      for k in g if g[k] is not None)
            try:
                f.add(np.array([w1 + 1.]), np.array([0.1]), np.array([1.]))
                ref = False
            except RuntimeError:
                ref = True
            f.reset()
            out.append((g, same, rep, ref))
        return out

    res = fakempi.run(size, fn, seed=case["seed"] % 971)
    mon.count("mpi", size > 1)
    if not mon.check(res.all_ok(), "mpi", "statistics: " + res.describe()):
        return
    for rd, per in enumerate(rounds):
        e = reference(per, nwb, nvb, nsub)
        wit = dict(size=size, cov=cov, round=rd, nwb=nwb, nvb=nvb)
        for lst in per:
            for _, d, iv, wb, vb in lst:
                mon.count("masked", (iv == 0).sum())
                mon.count("overflow", ((vb < 0) | (vb >= nvb)).sum())
        for v in res.values:
            g, same, rep, ref = v[rd]
            judge(mon, g, e, nwb, nvb, w1, w2, wit)
            mon.check(same, "frame", "adding modified its input")
            mon.check(rep, "repeat", "second calculation differs")
            mon.count("refused")
            mon.check(ref, "refused", "adding after the statistics are "
                      "calculated was accepted")
            mon.count("reset", rd)
            for k in ("npx", "nq", "mean", "var", "e"):
                mon.equal(g[k], res.values[0][rd][0][k], "mpi",
                          "ranks disagree")
    # distribution over ranks does not change means and counts
    allsp = [x for lst in rounds[0] for x in lst]
    f = VarLSSFitter(w1, w2, nwb, var1, var2, nvb, nsub, cov)
    for k in rng.permutation(len(allsp)):
        f.add(*allsp[int(k)][:3])
    f.calculate_subsampler_stats()
    g, h = grab(f, nwb, nvb), res.values[0][0][0]
    mon.count("invariance")
    for k in ("npx", "nq"):
        mon.equal(g[k], h[k], "invariance", k + " depends on distribution")
    for k in ("mean", "var", "cen", "var2"):
        mon.close(g[k], h[k], "invariance", k + " depends on distribution",
                  rtol=1e-6, atol=1e-7 * (1 + np.abs(h[k]).max()))
    mon.state("stats", size, cov, nwb, none_comm)


def run_fit(case, mon, rng):
    from scipy.optimize import lsq_linear
    from scipy.interpolate import UnivariateSpline
    from qsonic import QsonicException
    from qsonic.picca_continuum import VarLSSFitter
    nwb = int(rng.choice([3, 4, 5, 6, 8, 10]))
    nvb = int(rng.integers(7, 12))
    nsub = int(rng.integers(10, 25))
    minpix, minqso = int(rng.choice([20, 30])), int(rng.choice([4, 6]))
    VarLSSFitter.min_num_pix = minpix
    VarLSSFitter.min_num_qso = minqso
    eta = bool(rng.random() < .6)
    cov = bool(rng.random() < .25)
    smooth = bool(rng.random() < .4)
    size = int(rng.choice([1, 1, 2, 3]))
    w1, w2, var1, var2 = 3600., 3600. + 120. * nwb, 1e-3, 4.
    dw = (w2 - w1) / nwb
    tl = rng.uniform(.05, .5) * (1 + .3 * np.sin(np.arange(nwb)))
    te = rng.uniform(.7, 1.5) + .1 * np.cos(np.arange(nwb))
    extreme = rng.random() < .15
    if extreme:
        te += 1.2     # beyond the upper bound
    nstarve = int(rng.choice([0, 0, 1, 2, int(.4 * nwb), int(.4 * nwb) + 1,
                              nwb]))
    starved = rng.choice(nwb, nstarve, replace=False)
    half = [int(k) for k in range(nwb) if k not in starved
            and rng.random() < .15]
    fewpix = [int(k) for k in starved if rng.random() < .4]
    mon.count("fewpix", len(fewpix))
    lists = [[] for _ in range(size)]
    nspec = 16
    dl = np.log10(var2 / var1) / nvb
    for i in range(nspec):
        ws, ds, iv = [], [], []
        for k in range(nwb):
            # pixels per (spectrum, bin): enough, half enough or starved
            per = 8
            if k in fewpix:
                # many quasars, but less than half the minimum of pixels
                if i >= int(.45 * minpix):
                    continue
                per = 1
            elif k in starved and i > 1:
                continue
            if k in half:
                # between half and the full minimum
                if i >= minqso - 1:
                    continue
                per = max(2, int(np.ceil(0.7 * minpix / (minqso - 1))))
            for v in range(nvb):
                var = var1 * 10**(dl * (v + rng.uniform(.01, .99, per)))
                sd = np.sqrt(te[k] * var + tl[k]) if eta else np.sqrt(
                    var + tl[k])
                ws.append(w1 + dw * (k + rng.uniform(.01, .99, per)))
                ds.append(rng.normal(0, 1, per) * sd)
                iv.append(1 / var)
        if not ws:
            continue
        ws, ds, iv = map(np.concatenate, (ws, ds, iv))
        o = np.argsort(ws)
        lists[i % size].append((ws[o], ds[o], iv[o]))
    guess = np.full(nwb, .1)
    if eta:
        guess = np.stack([guess, np.ones(nwb)], axis=1)

    def fn(comm):
        VarLSSFitter.min_num_pix = minpix
        VarLSSFitter.min_num_qso = minqso
        r = comm.Get_rank()
        f = VarLSSFitter(w1, w2, nwb, var1, var2, nvb, nsub, use_cov=cov,
                         comm=comm)
        for a in lists[r]:
            f.add(*a)
        g0 = guess.copy()
        try:
            out = f.fit(g0) if smooth else f.fit(g0, smooth=False)
        except QsonicException as e:
            return ("exc", str(e), grab(f, nwb, nvb),
                    np.array_equal(g0, guess))
        return ("ok", (out[0].copy(), out[1].copy()), grab(f, nwb, nvb),
                np.array_equal(g0, guess))

    res = fakempi.run(size, fn, seed=case["seed"] % 967)
    mon.count("mpi", size > 1)
    if not mon.check(res.all_ok(), "mpi", "fit: " + res.describe()):
        return
    g = res.values[0][2]
    # expected selection and solution
    sel, nfail = [], 0
    for k in range(nwb):
        s = np.arange(k * nvb, (k + 1) * nvb)
        w = (g["npx"][s] >= minpix) & (g["nq"][s] >= minqso)
        if w.sum() < 5:
            w = (g["npx"][s] >= minpix // 2) & (g["nq"][s] >= minqso // 2)
            mon.count("fallback", w.sum() >= 5)
        if w.sum() < 5:
            nfail += 1
            mon.count("starved")
            sel.append(None)
        else:
            sel.append(s[w])
    wit = dict(size=size, eta=eta, cov=cov, nfail=nfail, nwb=nwb,
               smooth=smooth)
    toomany = nfail / nwb > .4
    mon.count("toomany", toomany)
    kinds = [v[0] for v in res.values]
    mon.check(all(v[3] for v in res.values), "frame",
              "initial guess modified")
    if not mon.check(kinds == ["exc" if toomany else "ok"] * size,
                     "failures", "more than 40% failures must raise on "
                     "every rank, and only then", actual=kinds, **wit):
        return
    mon.state("fit", size, eta, cov, min(nfail, 3), toomany, smooth,
              bool(half))
    if toomany:
        return
    for v in res.values[1:]:
        mon.close(v[1][0], res.values[0][1][0], "mpi", "ranks disagree",
                  rtol=1e-12)
    fit, std = res.values[0][1]
    mon.count("fits")
    mon.finite(fit, "finite", "fit results", **wit)
    np_ = 2 if eta else 1
    F = fit.reshape(nwb, np_)
    S = std.reshape(nwb, np_)
    exp, estd = np.zeros((nwb, np_)), np.zeros((nwb, np_))
    atb = np.zeros(nwb, bool)
    for k, s in enumerate(sel):
        if s is None:
            continue
        A = np.ones((s.size, np_))
        b = g["var"][s].copy()
        if eta:
            A[:, 1] = g["cen"][s]
        else:
            b = b - g["cen"][s]
        L = None
        if cov:
            c = g["cov"][k][np.ix_(s - k * nvb, s - k * nvb)]
            try:
                L = np.linalg.cholesky(c)
            except np.linalg.LinAlgError:
                mon.count("notposdef")
        if L is None:
            A2, b2 = A / g["e"][s][:, None], b / g["e"][s]
        else:
            from scipy.linalg import solve_triangular
            A2 = solve_triangular(L, A, lower=True)
            b2 = solve_triangular(L, b, lower=True)
        if not (np.isfinite(A2).all() and np.linalg.cond(A2) < 1e5):
            atb[k] = True
            continue
        r = lsq_linear(A2, b2, bounds=(0, 2), tol=1e-12)
        exp[k] = r.x
        estd[k] = np.sqrt(np.diag(np.linalg.inv(A2.T @ A2)))
        atb[k] = np.any(r.x < 1e-4) or np.any(r.x > 2 - 1e-4)
        if smooth:
            continue
        mon.count("fit_bins")
        # cost at the reported solution against the optimum
        c0 = ((A2 @ r.x - b2)**2).sum()
        c1 = ((A2 @ F[k] - b2)**2).sum()
        mon.check(np.all(F[k] >= -1e-9) and np.all(F[k] <= 2 + 1e-9),
                  "bounds", "solution outside [0, 2]", actual=F[k], **wit)
        mon.check(c1 <= c0 + 1e-3 + 1e-5 * c0, "optimum",
                  "not the weighted least-squares solution", actual=F[k],
                  expected=r.x, c1=c1, c0=c0, bin=k, **wit)
        if not atb[k]:
            mon.close(F[k], exp[k], "solution", "var_lss/eta", rtol=1e-3,
                      atol=1e-3 * estd[k].max(), bin=k, **wit)
            mon.close(S[k], estd[k], "std", "error of the fit", rtol=1e-3,
                      bin=k, **wit)
    if not smooth:
        for k, s in enumerate(sel):
            if s is None:
                mon.check(np.all(F[k] == 0), "failed", "a failed bin has a "
                          "result", **wit)
        return
    if atb.any():
        return
    ok = np.array([s is not None for s in sel])
    mon.count("smooth")
    x = w1 + dw * (np.arange(nwb) + .5)
    for q in range(np_):
        spl = UnivariateSpline(x[ok], exp[ok, q], w=1 / estd[ok, q],
                               k=min(3, ok.sum() - 1))(x)
        mon.close(F[:, q], spl, "smooth", "smoothed results",
                  rtol=2e-2, atol=2e-2 * np.abs(spl).max(), **wit)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "stats":
        run_stats(case, mon, rng)
    else:
        run_fit(case, mon, rng)
    mon.seen()
