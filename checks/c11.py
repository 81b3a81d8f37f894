"""C11: a valid continuum fit is the positive best fit of the model."""
import argparse

import numpy as np

from qv import fakempi, ref, specs, synth
from checks.c16 import cubic_ref, lin_ref

RULE = ("random mean continua, mean-flux, var_lss and eta tables, polynomial "
        "orders 0-3, both minimisers, masks, smoothing, noise from S/N 20 to "
        "pure noise and negative flux, and fit histories valid -> invalid -> "
        "valid; model, weights, chi2, dof recomputed and optimality of the "
        "documented cost tested by an independent local search; fit_continua "
        "on 1-4 ranks; distinct = (order, minimiser, outcome, population, "
        "tables)")
ASSUMPTIONS = ["the cost has several minima for hostile spectra: "
               "stationarity is judged for every valid fit, and for well-"
               "behaved spectra a search from the reported parameters must not lower the cost by more than 0.05 + "
               "1e-5|cost| (0.3 + 2e-5|cost| for L-BFGS-B, whose stopping "
               "rule is relative)"]
REQUIRED = {"fits": 250, "valid": 120, "invalid": 40, "optimum": 60,
            "stationary": 100,
            "valid_pixels": 10000, "mpi_runs": 16, "mpi_all_invalid": 3,
            "good": 80, "history": 60, "edge": 20, "edge_invalid": 5, "faults": 15}


def cases(tier):
    k = 3 if tier == "quick" else 30
    return ([{"kind": "fit"}] * (150 * k) + [{"kind": "mpi"}] * (24 * k)
            + [{"kind": "fault"}] * (12 * k))


W1, W2, R1, R2 = 3600., 5600., 1050., 1180.


def tables(rng):
    nb = int(rng.integers(20, 60))
    edges, dw = np.linspace(R1, R2, nb + 1, retstep=True)
    rf = (edges[1:] + edges[:-1]) / 2
    ph = rng.uniform(0, 6)
    t = {"rf0": rf[0], "dw": dw, "denom": np.log(rf[-1] / rf[0]),
         "mc": 1 + 0.2 * np.sin(rf / 20 + ph) + 0.1 * (rf - 1110) / 60,
         "mf": np.exp(-rng.uniform(.1, .4) * np.linspace(.6, 1.5, 25)),
         "vl": rng.uniform(.02, .4) * np.linspace(
             rng.uniform(.2, 1), rng.uniform(1, 2), 20) + .01 * rng.random(20),
         "et": rng.uniform(.6, 1.3) + 0.3 * np.sin(np.arange(20) / 3 + ph),
         "vlin": bool(rng.random() < 0.5), "flatmf": rng.random() < 0.3}
    if t["flatmf"]:
        t["mf"][:] = 1
    if rng.random() < 0.3:
        t["et"][:] = 1
    return t


def funcs(t):
    def mc(w):
        return cubic_ref(w, t["rf0"], t["dw"], t["mc"], "not-a-knot")

    def mf(w):
        return lin_ref(w, 3500., 100., t["mf"])

    def vl(w):
        return (lin_ref(w, 3550., 110., t["vl"]) if t["vlin"] else
                cubic_ref(w, 3550., 110., t["vl"], "not-a-knot"))

    def et(w):
        return cubic_ref(w, 3550., 110., t["et"], "not-a-knot")
    return mc, mf, vl, et


def model(t, order, minimizer):
    from qsonic.continuum_models import PiccaContinuumModel
    from qsonic.mathtools import FastCubic1DInterp, FastLinear1DInterp
    return PiccaContinuumModel(
        FastCubic1DInterp(t["rf0"], t["dw"], t["mc"].copy()),
        FastLinear1DInterp(3500., 100., t["mf"].copy()),
        (FastLinear1DInterp if t["vlin"] else FastCubic1DInterp)(
            3550., 110., t["vl"].copy()),
        FastCubic1DInterp(3550., 110., t["et"].copy()),
        order, t["rf0"], t["denom"], minimizer)


class Cost:
    """Documented cost with all tables evaluated once."""

    def __init__(self, t, s, order):
        mc, mf, vl, et = funcs(t)
        self.arms = {}
        for a, w in s.forestwave.items():
            rf = w / (1 + s.z_qso)
            u = 2 * np.log(rf / t["rf0"]) / t["denom"] - 1
            basis = np.array([u**i for i in range(order + 1)])
            self.arms[a] = (basis * mc(rf), mf(w), vl(w), et(w),
                            np.array(s.forestflux[a], "f8"),
                            np.array(s.forestivar_sm[a], "f8"))

    def cont(self, x, a):
        return np.asarray(x) @ self.arms[a][0] * self.arms[a][1]

    def __call__(self, x):
        c = 0.0
        for a, (b, mf, vl, et, f, i) in self.arms.items():
            m = np.asarray(x) @ b * mf
            g = i > 0
            w = i[g] / (et[g] + i[g] * vl[g] * m[g]**2)
            c += (w * (f[g] - m[g])**2).sum() - np.log(w).sum()
        return c


def population(rng, t, wave, n, order):
    """Spectra with a truth; returns cat, data and kinds."""
    mc, mf, vl, et = funcs(t)
    cat = specs.catalog(rng, n, z=rng.uniform(2.35, 3.6, n))
    data = specs.data_dict(rng, wave, n, str(rng.choice(["f4", "f8"])),
                           p_mask=float(rng.choice([0.02, 0.3])))
    kinds = []
    for k in range(n):
        kind = str(rng.choice(["good", "noisy", "steep", "negative"],
                              p=[.55, .15, .2, .1]))
        kinds.append(kind)
        amp = rng.uniform(1, 4)
        if rng.random() < .3:       # faint and bright quasars
            amp = 10**rng.uniform(-1.3, 2)
        sl = rng.uniform(-.3, .3) * amp
        sn = {"good": 0.15, "noisy": 4.0, "steep": 0.2,
              "negative": 0.3}[kind] * amp
        if kind == "steep":
            sl = rng.choice([-1, 1]) * amp * rng.uniform(1.05, 1.8)
        if kind == "negative":
            amp = -amp
        for a, w in wave.items():
            rf = w / (1 + cat["Z"][k])
            u = 2 * np.log(rf / t["rf0"]) / t["denom"] - 1
            c = (amp + sl * u) * mc(np.clip(rf, R1, R2)) * mf(w)
            d = rng.normal(0, 1, w.size) * np.sqrt(vl(w))
            s = sn * rng.uniform(.8, 1.2, w.size)
            data["flux"][a][k] = c * (1 + d) + rng.normal(
                0, 1, w.size) * s * np.sqrt(et(w))
            data["ivar"][a][k] = s**-2
    return cat, data, kinds


def polish(cost, x, D):
    """Independent local search from x."""
    from scipy.optimize import minimize
    best = cost(x)
    for h in (1.0, 0.1):
        r = minimize(lambda p: cost(x + D @ p), np.zeros(len(x)),
                     method="Nelder-Mead",
                     options=dict(initial_simplex=np.vstack(
                         [np.zeros(len(x))] + [h * e for e in np.eye(
                             len(x))]), maxiter=250, xatol=1e-4, fatol=1e-6))
        best = min(best, r.fun)
    return best


def edm(cost, x, D):
    """Expected distance to the minimum from numerical derivatives."""
    n = len(x)
    h = 0.05
    E = np.eye(n) * h
    g, H = np.zeros(n), np.zeros((n, n))

    def f(p):
        return cost(x + D @ p)
    f0 = f(np.zeros(n))
    for i in range(n):
        a, b = f(E[i]), f(-E[i])
        g[i] = (a - b) / (2 * h)
        H[i, i] = (a + b - 2 * f0) / h**2
        for j in range(i):
            H[i, j] = H[j, i] = (
                f(E[i] + E[j]) - f(E[i] - E[j]) - f(E[j] - E[i])
                + f(-E[i] - E[j])) / (4 * h**2)
    ev = np.linalg.eigvalsh(H)
    if ev.min() < 1e-2:
        return ev.min(), False
    return 0.5 * g @ np.linalg.solve(H, g), True


def judge(mon, s, cost, t, order, mini, kind, wit, dof):
    cp = s.cont_params
    st = specs.state(s)
    mon.count("fits")
    mon.check(cp["dof"] == dof, "dof", "degrees of freedom",
              actual=cp["dof"], expected=dof, **wit)
    if not cp["valid"]:
        mon.count("invalid")
        mon.count("edge_invalid", kind == "edge")
        mon.check(not cp["cont"], "invalid", "invalid fit has a continuum",
                  **wit)
        mon.check(cp["chi2"] == -1, "invalid", "chi2 of an invalid fit",
                  actual=cp["chi2"], **wit)
        for a in s.forestivar_sm:
            mon.equal(s.forestweight[a], s.forestivar_sm[a], "invalid",
                      "weights of an invalid fit", **wit)
        mon.check(kind != "good", "good-rejected",
                  "a clearly positive high S/N spectrum was rejected", **wit)
        return
    mon.count("valid")
    mon.count("good", kind == "good")
    x = np.array(cp["x"], "f8")
    if not mon.check(x.shape == (order + 1,) and np.all(np.isfinite(x)),
                     "params", "shape of the parameters", actual=x, **wit):
        return
    cov = np.array(cp["xcov"], "f8")
    mon.check(cov.shape == (order + 1, order + 1), "params",
              "shape of the covariance", **wit)
    mon.check(sorted(cp["cont"]) == sorted(s.forestwave), "model",
              "arms of the continuum", **wit)
    chi2 = 0.0
    for a, w in s.forestwave.items():
        c = cost.cont(x, a)
        vl, et, f, i = cost.arms[a][2:]
        mon.count("valid_pixels", w.size)
        mon.close(cp["cont"][a], c, "model", "continuum is not the model at "
                  "the reported parameters", rtol=1e-6,
                  atol=1e-7 * np.abs(c).max(), **wit)
        mon.check(np.all(cp["cont"][a] >= 0), "negative",
                  "valid continuum is negative", **wit)
        ew = ref.weight(i, vl, et, c)
        mon.close(s.forestweight[a], ew, "weight", "weights of the fit",
                  rtol=2e-5, atol=1e-12, **wit)
        chi2 += float((ew * (f - c)**2).sum())
    mon.close(cp["chi2"], chi2, "chi2", "chi2 of the fit", rtol=1e-4,
              atol=1e-4, **wit)
    c0 = cost(x)
    A = np.hstack([b * mf * np.sqrt(ref.weight(i, vl, et, cost.cont(x, a)))
                   for a, (b, mf, vl, et, f, i) in cost.arms.items()])
    U, S, Vt = np.linalg.svd(A.T, full_matrices=False)
    D = Vt.T / S        # directions of unit chi2 change
    tol = ((0.05 + 1e-5 * abs(c0)) if mini == "iminuit"
           else (0.3 + 2e-5 * abs(c0)))
    if kind in ("noisy", "negative", "spoiled", "short", "edge"):
        return
    e, pd = edm(cost, x, D)
    mon.count("stationary", pd)
    if pd:
        mon.check(e < tol, "stationary", "reported parameters are not "
                  "stationary: the cost can be lowered by about "
                  f"{e:.5f} from {c0:.5f}", x=x, **wit)
    else:
        mon.count("saddle")
        mon.check(kind != "good" or order > 1, "stationary",
                  "no minimum at the reported parameters", x=x, **wit)
    if kind == "good":
        best = polish(cost, x, D)
        mon.count("optimum")
        mon.check(best > c0 - tol, "optimum",
                  "reported parameters do not minimise the documented cost: "
                  f"{c0:.5f} can be lowered to {best:.5f}", x=x, **wit)
    return st


def run_fit(case, mon, rng):
    specs.reset_statics()
    t = tables(rng)
    order = int(rng.choice([0, 1, 1, 1, 2, 3]))
    mini = str(rng.choice(["iminuit", "iminuit", "l_bfgs_b"]))
    wave = {"B": np.arange(W1, 4700, 4.0), "R": np.arange(4500., W2 + 60, 4.)}
    if rng.random() < 0.3:
        del wave["R"]
    n = 4
    cat, data, kinds = population(rng, t, wave, n, order)
    if order == 0:
        kinds = [k if k != "good" else "ok" for k in kinds]
    edge = order > 0 and rng.random() < .3
    if edge:
        kinds = ["edge"] * n
        t["vl"] = t["vl"] * 1e-9
        mc, mf, vl, et = funcs(t)
        for k in range(n):
            # the true continuum crosses zero next to the end of an arm
            z = cat["Z"][k]
            a = str(rng.choice(list(wave)))
            w = wave[a]
            g = w[(w >= max(W1, (1 + z) * R1)) & (w < min(W2, (1 + z) * R2))]
            if g.size < 8:
                continue
            j = int(rng.integers(1, 3))
            x0 = (g[-j - 1] + rng.uniform(.1, .9) * (g[-j] - g[-j - 1])
                  if rng.random() < .5 else
                  g[j - 1] + rng.uniform(.1, .9) * (g[j] - g[j - 1]))
            u0 = 2 * np.log(x0 / (1 + z) / t["rf0"]) / t["denom"] - 1
            sg = 1 if x0 < g.mean() else -1
            for b, wb in wave.items():
                rf = wb / (1 + z)
                u = 2 * np.log(rf / t["rf0"]) / t["denom"] - 1
                data["flux"][b][k] = 3 * sg * (u - u0) * mc(rf) * mf(wb)
                data["ivar"][b][k] = 1e4
            mon.count("edge")
    sl = specs.build(cat, data, (W1, W2, R1, R2))
    sm = float(rng.choice([0, 16.]))
    keep = []
    for s, k in zip(sl, kinds):
        if s.get_real_size() < 25:
            continue
        s.drop_short_arms()
        if sm:
            s.set_smooth_forestivar(sm)
        keep.append((s, k if s.get_real_size() > 60 or edge else "short"))
    if not keep:
        return
    sl = [s for s, _ in keep]
    m = model(t, order, mini)
    before = [specs.state(s) for s in sl]
    m.init_spectra(sl)
    for s, k in keep:
        mon.check(s.cont_params["method"] == "picca", "params", "method")
        dof = s.get_real_size() - order - 1
        b = specs.state(s)
        m.fit_continuum(s)
        a = specs.state(s)
        specs.same_state(mon, a, b, "frame", "fitting changed the data",
                         skip=("forestweight", "cont"))
        wit = dict(kind=k, order=order, mini=mini, smooth=sm)
        cost = Cost(t, s, order)
        judge(mon, s, cost, t, order, mini, k, wit, dof)
        mon.state("fit", order, mini, k, bool(s.cont_params["valid"]),
                  bool(sm), t["vlin"], t["flatmf"])
        if rng.random() < 0.4:
            # history: spoil the flux, fit, restore, fit again
            mon.count("history")
            x1 = np.array(s.cont_params["x"], copy=True)
            v1, c1 = s.cont_params["valid"], s.cont_params["chi2"]
            org = {q: s.forestflux[q].copy() for q in s.forestflux}
            for q in s.forestflux:
                u = np.linspace(-1, 1, org[q].size)
                s.forestflux[q][:] = -3 - 5 * u * (org[q] != 0)
            m.fit_continuum(s)
            judge(mon, s, Cost(t, s, order), t, order, mini, "spoiled", wit,
                  dof)
            for q in s.forestflux:
                s.forestflux[q][:] = org[q]
            m.fit_continuum(s)
            judge(mon, s, Cost(t, s, order), t, order, mini, k, wit, dof)
            mon.check(s.cont_params["valid"] == v1, "history",
                      "outcome depends on the previous fit", **wit)
            if v1 and s.cont_params["valid"]:
                mon.close(s.cont_params["chi2"], c1, "history",
                          "chi2 depends on the previous fit", rtol=1e-3,
                          atol=1e-2, **wit)
    for s, b in zip(sl, before):
        specs.same_state(mon, specs.state(s), b, "frame",
                         "fitting changed other data",
                         skip=("forestweight", "cont", "params"))


def write_fid(fname, t):
    import fitsio
    lam = 3500. + 100. * np.arange(25)
    d = np.zeros(25, dtype=[("LAMBDA", "f8"), ("MEANFLUX", "f8"),
                            ("VAR_LSS", "f8")])
    d["LAMBDA"], d["MEANFLUX"] = lam, t["mf"]
    d["VAR_LSS"] = lin_ref(lam, 3550., 110., t["vl"])
    with fitsio.FITS(fname, "rw", clobber=True) as f:
        f.write(d, extname="STATS")


def fitter_args(**kw):
    from qsonic.io import add_io_parser
    from qsonic.picca_continuum import add_picca_continuum_parser
    from qsonic.spectrum import add_wave_region_parser
    p = argparse.ArgumentParser()
    add_picca_continuum_parser(add_wave_region_parser(p))
    p.add_argument("--outdir", default="")
    lst = []
    for k, v in kw.items():
        k = "--" + k.replace("_", "-")
        lst += [k] if v is True else [k, str(v)]
    return p.parse_args(lst)


def run_mpi(case, mon, rng, tmp):
    from qsonic import QsonicException
    from qsonic.picca_continuum import PiccaContinuumFitter
    t = tables(rng)
    write_fid(tmp + "/fid.fits", t)
    size = int(rng.integers(1, 5))
    mode = str(rng.choice(["mixed", "allbad", "onegood", "emptyrank"],
                          p=[.4, .3, .2, .1]))
    wave = {"B": np.arange(W1, 4700, 5.0)}
    lists = []
    for r in range(size):
        lists.append(population(rng, t, wave, 3, 1))
    args = fitter_args(
        wave1=W1, wave2=W2, forest_w1=R1, forest_w2=R2,
        fiducial_meanflux=tmp + "/fid.fits",
        fiducial_varlss=tmp + "/fid.fits", rfdwave=2.0,
        minimizer=str(rng.choice(["iminuit", "l_bfgs_b"])))

    def fn(comm):
        r = comm.Get_rank()
        specs.reset_statics()
        cat, data, kinds = lists[r]
        sl = specs.build(cat, data, (W1, W2, R1, R2))
        sl = [s for s in sl if s.get_real_size() > 30]
        if mode == "emptyrank" and r == size - 1 and size > 1:
            sl = []
        bad = mode == "allbad" or (mode == "onegood" and r != 0)
        for s in sl:
            for a in s.forestflux:
                if bad:
                    s.forestflux[a][:] = -3
        f = PiccaContinuumFitter(args)
        f.model.init_spectra(sl)
        try:
            f.fit_continua(sl)
        except QsonicException as e:
            return ("exc", str(e), [bool(s.cont_params["valid"])
                                    for s in sl])
        return ("ok", "", [bool(s.cont_params["valid"]) for s in sl])

    res = fakempi.run(size, fn, seed=case["seed"] % 997)
    mon.count("mpi_runs")
    if not mon.check(res.all_ok(), "mpi", "fit_continua: " + res.describe()):
        return
    anyvalid = any(any(v[2]) for v in res.values)
    kinds = [v[0] for v in res.values]
    mon.count("mpi_all_invalid", not anyvalid)
    mon.check(all(k == ("ok" if anyvalid else "exc") for k in kinds), "mpi",
              "outcome of fit_continua on the ranks", actual=kinds,
              anyvalid=anyvalid, mode=mode)
    mon.state("mpi", size, mode, anyvalid)


def run_fault(case, mon, rng):
    """The minimiser stops without having converged."""
    import iminuit
    from scipy.optimize import _minimize
    specs.reset_statics()
    t = tables(rng)
    order = int(rng.choice([1, 1, 2]))
    mini = str(rng.choice(["iminuit", "l_bfgs_b"]))
    wave = {"B": np.arange(W1, 4700, 4.0)}
    cat, data, kinds = population(rng, t, wave, 4, order)
    sl = [s for s in specs.build(cat, data, (W1, W2, R1, R2))
          if s.get_real_size() > 40]
    m = model(t, order, mini)
    m.init_spectra(sl)
    for s in sl:
        m.fit_continuum(s)
    was = [bool(s.cont_params["valid"]) for s in sl]
    migrad, lbfgs = iminuit.Minuit.migrad, _minimize._minimize_lbfgsb
    hit = []

    def few(self, *a, **k):
        k["ncall"] = 1
        r = migrad(self, *a, **k)
        hit.append(not self.valid)
        return r

    def failed(*a, **k):
        r = lbfgs(*a, **k)
        r.success, r.status = False, 2
        r.message = "ABNORMAL_TERMINATION_IN_LNSRCH"
        hit.append(True)
        return r

    iminuit.Minuit.migrad, _minimize._minimize_lbfgsb = few, failed
    try:
        for s, v in zip(sl, was):
            hit.clear()
            m.fit_continuum(s)
            if not hit or not all(hit):
                mon.count("fault_not_reached")
                continue
            mon.count("faults")
            cp = s.cont_params
            wit = dict(mini=mini, order=order, before=v)
            mon.check(not cp["valid"], "failed", "fit that did not converge "
                      "is reported valid", **wit)
            mon.check(not cp["cont"] and cp["chi2"] == -1, "failed",
                      "fit that did not converge has a continuum or chi2",
                      chi2=cp["chi2"], **wit)
            for a in s.forestivar_sm:
                mon.equal(s.forestweight[a], s.forestivar_sm[a], "failed",
                          "weights of a failed fit", **wit)
            mon.state("fault", mini, order, v)
    finally:
        iminuit.Minuit.migrad = migrad
        _minimize._minimize_lbfgsb = lbfgs
    for s, v in zip(sl, was):
        m.fit_continuum(s)
        mon.check(bool(s.cont_params["valid"]) == v, "history",
                  "outcome depends on an earlier failure", mini=mini)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "fault":
        run_fault(case, mon, rng)
    elif case["kind"] == "fit":
        run_fit(case, mon, rng)
    else:
        run_mpi(case, mon, rng, tmp)
    mon.seen()
