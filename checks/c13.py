"""C13: stacked flux and mean continuum."""
import numpy as np

from qv import fakempi, small, specs
from qv.runner import digest
from checks.c11 import fitter_args, lin_ref, tables, write_fid

RULE = ("random spectra with assigned continua and weights (empty bins, "
        "masked pixels, invalid spectra, processes without spectra) stacked "
        "on 1-4 ranks; bins against a dictionary-based weighted mean, mean "
        "continuum against an independent reconstruction plus unit integral, "
        "Legendre orthogonality, fixed point and rank-count invariance; "
        "whole iterations with --normalize-stacked-flux/--eta-calib-ivar "
        "compared with plain ones; distinct = (kind, ranks, order, bins, "
        "model, flags)")
ASSUMPTIONS = ["pixels of random workloads are not within rounding of a bin "
               "edge; exact-edge pixels use exactly representable grids"]
REQUIRED = {"stacks": 60, "bins": 3000, "empty_bins": 100, "means": 40,
            "fixed": 8, "invariance": 30, "flags": 10, "norm_pixels": 1000,
            "eta_pixels": 1000, "edge_pixels": 500, "invalid_spectra": 30,
            "again": 20, "empty_rf": 50, "norm_empty": 2, "must_converge": 30,
            "must_go_on": 20}


def cases(tier):
    k = 3 if tier == "quick" else 30
    return ([{"kind": "stack"}] * (40 * k) + [{"kind": "mean"}] * (34 * k)
            + [{"kind": "flags"}] * (12 * k))


def binned(idx, n, wx, w):
    num, den = np.zeros(n), np.zeros(n)
    for i, a, b in zip(idx, wx, w):
        num[i] += a
        den[i] += b
    return num, den


def run_stack(case, mon, rng):
    from qsonic.picca_continuum import FluxStacker
    size = int(rng.integers(1, 5))
    exact = rng.random() < .5
    if exact:
        w1, dw, nb = 3600., float(rng.choice([8., 4., 2.])), int(
            rng.integers(5, 40))
        r1, dr, nr = 1040., float(rng.choice([1., .5, 2.])), int(
            rng.integers(5, 40))
    else:
        w1, dw, nb = float(rng.uniform(3500, 3700)), float(
            rng.uniform(3, 12)), int(rng.integers(3, 40))
        r1, dr, nr = float(rng.uniform(1000, 1050)), float(
            rng.uniform(.3, 2)), int(rng.integers(3, 40))
    waverf = r1 + dr * (.5 + np.arange(nr))
    # the unit of the weights is arbitrary
    unit = 10.**rng.integers(-14, 7) if rng.random() < .3 else 1.
    mon.count("units", unit != 1)
    rounds = []
    for _ in range(2):
        per = []
        for r in range(size):
            lst = []
            for _ in range(int(rng.integers(0, 5))):
                m = int(rng.integers(1, 60))
                if exact:
                    k = rng.integers(0, nb * 8, m)
                    w = w1 + dw / 8 * k
                    q = r1 + dr / 8 * rng.integers(0, nr * 8, m)
                    mon.count("edge_pixels", (k % 8 == 0).sum())
                else:
                    w = w1 + dw * (rng.integers(0, nb, m) + rng.uniform(
                        .001, .999, m))
                    q = r1 + dr * (rng.integers(0, nr, m) + rng.uniform(
                        .001, .999, m))
                o = np.argsort(w)
                w, q = w[o], q[o]
                wt = unit * rng.uniform(.1, 3, m) * (rng.random(m) > .2)
                lst.append((w, q, wt * rng.normal(1, .5, m),
                            wt * rng.normal(2, .5, m), wt))
            per.append(lst)
        rounds.append(per)

    def fn(comm):
        r = comm.Get_rank()
        st = FluxStacker(w1, w1 + nb * dw, dw, waverf, dr,
                         comm=comm if size > 1 or rng.random() < .5
                         else None)
        out = [(st.waveobs.copy(), st.stacked_flux.copy())]
        for per in rounds:
            st.reset()
            for args in per[r]:
                st.add(*args)
            st.calculate()
            x = w1 + dw * np.linspace(.1, nb - .1, 31)
            out.append((st.stacked_flux.copy(), st.weights.copy(),
                        st.stacked_flux_rf.copy(), st.std_flux_rf.copy(),
                        x, np.array(st(x))))
        return out

    res = fakempi.run(size, fn, seed=case["seed"] % 991)
    if not mon.check(res.all_ok(), "mpi", "stacking: " + res.describe()):
        return
    for r, out in enumerate(res.values):
        mon.close(out[0][0], w1 + dw * (np.arange(nb) + .5), "grid",
                  "bin centres", rtol=1e-10)
        mon.close(out[0][1], np.ones(nb), "init", "initial stack is one")
        for rd, per in enumerate(rounds):
            mon.count("stacks")
            mon.count("again", rd)
            allx = [a for lst in per for a in lst]
            cat = [np.concatenate([a[j] for a in allx]) if allx else
                   np.zeros(0) for j in range(5)]
            e = 1e-9 if exact else 0
            i1 = np.floor((cat[0] - w1) / dw + e).astype(int)
            i2 = np.floor((cat[1] - r1) / dr + e).astype(int)
            n1, d1 = binned(i1, nb, cat[2], cat[4])
            n2, d2 = binned(i2, nr, cat[3], cat[4])
            f, w, frf, erf, x, y = out[1 + rd]
            mon.count("bins", nb + nr)
            mon.count("empty_bins", (d1 == 0).sum() + (d2 == 0).sum())
            ef = np.where(d1 > 0, n1 / np.where(d1 > 0, d1, 1), 0)
            e2 = np.where(d2 > 0, n2 / np.where(d2 > 0, d2, 1), 0)
            es = np.where(d2 > 0, np.where(d2 > 0, d2, 1)**-.5, 0)
            wit = dict(size=size, round=rd, rank=r)
            mon.close(f, ef, "obs", "stacked flux", rtol=1e-9, atol=1e-11,
                      **wit)
            mon.close(w, d1, "obs", "stacked weights", rtol=1e-9,
                      atol=1e-11, **wit)
            mon.close(frf, e2, "rf", "rest-frame stack", rtol=1e-9,
                      atol=1e-11, **wit)
            mon.close(erf, es, "rf", "rest-frame error", rtol=1e-9,
                      atol=1e-11, **wit)
            mon.close(y, lin_ref(x, w1 + dw / 2, dw, ef), "call",
                      "interpolated stack", rtol=1e-8, atol=1e-9, **wit)
            mon.equal(f, res.values[0][1 + rd][0], "mpi", "ranks disagree")
    mon.state("stack", size, exact, nb // 10, nr // 10)


W1, W2, R1, R2 = 3600., 4400., 1050., 1180.


def pool(rng, n, zlo=2.3, zhi=2.75, full=True):
    wave = {"B": np.arange(W1 - 40, 4100, 4.0),
            "R": np.arange(3990., W2 + 60, 4.)}
    cat = specs.catalog(rng, n, z=rng.uniform(zlo, zhi, n))
    data = specs.data_dict(rng, wave, n, "f8", p_mask=.05)
    return cat, data


def project(rf, m, order):
    """Remove Legendre orders 1..order and normalise (documented)."""
    from scipy.interpolate import CubicSpline
    from scipy.special import eval_legendre
    x = np.log(rf / rf[0]) / np.log(rf[-1] / rf[0])
    m = m.copy()

    def integ(y):
        return float(CubicSpline(x, y, bc_type="natural").integrate(0, 1))
    for c in range(1, order + 1):
        leg = eval_legendre(c, 2 * x - 1)
        m = m - (2 * c + 1) * integ(m * leg) * leg
    nrm = integ(m)
    return m / nrm, nrm


def moments(rf, m, order):
    from scipy.interpolate import CubicSpline
    from scipy.special import eval_legendre
    x = np.log(rf / rf[0]) / np.log(rf[-1] / rf[0])
    return [float(CubicSpline(x, m * eval_legendre(
        c, 2 * x - 1), bc_type="natural").integrate(0, 1))
        for c in range(order + 1)]


def run_mean(case, mon, rng, tmp):
    from scipy.interpolate import UnivariateSpline
    from qsonic.picca_continuum import PiccaContinuumFitter
    t = tables(rng)
    write_fid(tmp + "/fid.fits", t)
    order = int(rng.choice([0, 1, 1, 2, 3, 4, 5]))
    residual = rng.random() < .7
    rfd = float(rng.choice([1.0, 2.0, 3.7]))
    flat = residual and rng.random() < .25
    # empty rest-frame bins: none, red end, blue end, inside
    cov = int(rng.choice([0, 0, 1, 2, 3]))
    n = 9
    if cov == 3:
        rfd = .41
    cat, data = pool(rng, n, *[(2.45, 2.7), (2.8, 2.95), (2.3, 2.36),
                               (2.45, 2.7)][cov])
    kw = dict(wave1=W1, wave2=W2, forest_w1=R1, forest_w2=R2,
              fiducial_meanflux=tmp + "/fid.fits",
              fiducial_varlss=tmp + "/fid.fits", rfdwave=rfd,
              cont_order=order)
    if not residual:
        kw["continuum_model"] = "true"
    args = fitter_args(**kw)
    amp = rng.uniform(1, 3, n)
    sl0 = rng.uniform(-.3, .3, n)
    valid = rng.random(n) < .8
    valid[0] = True
    ph = rng.uniform(0, 6)
    start = bool(rng.random() < .5)
    flux_noise = 0.0 if flat else 0.2
    noise = {a: rng.normal(0, 1, data["flux"][a].shape)
             for a in data["flux"]}
    smooth = float(rng.choice([0, 20.]))
    vph = rng.uniform(0, 6)

    def vlss(w):
        return .1 + .05 * np.sin(w / 90 + vph)

    def veta(w):
        return 1.2 + .2 * np.cos(w / 130 + vph)

    def shape(rf):
        return 1 + .15 * np.sin(rf / 25 + ph)

    def make(idx):
        specs.reset_statics()
        sl = specs.build(cat, data, (W1, W2, R1, R2))
        out = []
        for k in idx:
            s = sl[k]
            cp = s.cont_params
            cp["valid"] = bool(valid[k])
            cp["cont"] = None
            if valid[k]:
                cp["cont"] = {}
                for a, w in s.forestwave.items():
                    rf = w / (1 + s.z_qso)
                    c = amp[k] * (1 + sl0[k] * (rf - 1115) / 65)
                    if not residual:
                        c = c * shape(rf)
                    cp["cont"][a] = c
                    i0 = np.searchsorted(data["wave"][a], w[0])
                    nz = noise[a][k][i0:i0 + w.size]
                    g = 1.0 if flat else shape(rf)
                    s.forestflux[a][:] = np.where(
                        s.forestivar[a] > 0,
                        c * (g if residual else 1) * (
                            1 + flux_noise * nz), 0)
                if smooth:
                    s.set_smooth_forestivar(smooth)
                s.set_forest_weight(vlss, veta)
            else:
                for a in s.forestflux:
                    s.forestflux[a][:] = 1e4   # must not leak
            out.append(s)
        return out

    def one(size):
        def fn(comm):
            r = comm.Get_rank()
            f = PiccaContinuumFitter(args)
            sl = make(range(n)[r::size])
            out = []
            m0 = f.meancont_interp.fp.copy()
            if start:
                x = np.log(f.rfwave / f.rfwave[0])
                m0, _ = project(f.rfwave, 1 + .2 * np.sin(8 * x / x[-1]),
                                f.cont_order)
                f.meancont_interp.reset(m0.copy(), ep=np.ones(m0.size))
            for rd in range(2):
                st = [specs.state(s) for s in sl]
                c = f.update_mean_cont(sl)
                out.append((m0, f.rfwave.copy(),
                            f.meancont_interp.fp.copy(),
                            f.flux_stacker.stacked_flux.copy(),
                            f.flux_stacker.stacked_flux_rf.copy(), bool(c),
                            f.meancont_interp(f.rfwave), f.cont_order,
                            [digest(b) == digest(specs.state(s))
                             for b, s in zip(st, sl)]))
                m0 = f.meancont_interp.fp.copy()
            return out
        return fakempi.run(size, fn, seed=case["seed"] % 983)

    sl = make(range(n))
    mon.count("invalid_spectra", (~valid).sum())
    nrf = int(round((R2 - R1) / rfd))
    drf = (R2 - R1) / nrf
    nob = int(round((W2 - W1) / 8.))
    rf_i, ob_i, wx, wo, ww = [], [], [], [], []
    for s in sl:
        if not s.cont_params["valid"]:
            continue
        for a, w in s.forestwave.items():
            rf = w / (1 + s.z_qso)
            c = s.cont_params["cont"][a]
            W = np.asarray(s.forestweight[a]) * c**2
            rf_i.append(np.floor((rf - R1) / drf).astype(int))
            ob_i.append(np.floor((w - W1) / 8. + 1e-9).astype(int))
            wo.append(W * s.forestflux[a] / c)
            wx.append(wo[-1] if residual else W * c)
            ww.append(W)
    rf_i, ob_i, wx, wo, ww = map(np.concatenate, (rf_i, ob_i, wx, wo, ww))
    n2, d2 = binned(rf_i, nrf, wx, ww)
    n1, d1 = binned(ob_i, nob, wo, ww)
    good = d2 > 0
    mon.count("empty_bins", (~good).sum())
    mon.count("empty_rf", (~good).sum())
    rf = R1 + drf * (np.arange(nrf) + .5)
    stack = np.where(good, n2 / np.where(good, d2, 1), 0)
    std = np.where(good, np.where(good, d2, 1)**-.5, 0)
    nf, sd = stack.copy(), std.copy()
    nf[~good] = nf[good].mean()
    sd[~good] = 10 * sd[good].mean()
    spl = UnivariateSpline(rf, nf, w=1 / sd)(rf)
    base = None
    for size in (1, int(rng.integers(2, 5))):
        res = one(size)
        if not mon.check(res.all_ok(), "mpi",
                         "update_mean_cont: " + res.describe()):
            return
        for v in res.values:
            for rd in range(2):
                (m0, rfw, m, so, srf, conv, node, co, same) = v[rd]
                wit = dict(order=co, residual=residual, rfd=rfd, rank=size,
                           flat=flat, start=start, round=rd)
                mon.count("means")
                mon.check(all(same), "frame",
                          "updating the mean continuum changed spectra")
                mon.close(rfw, rf, "grid", "rest-frame grid", rtol=1e-10)
                mon.close(srf, stack, "rf", "rest-frame stack", rtol=1e-8,
                          atol=1e-10, **wit)
                mon.close(so, np.where(d1 > 0, n1 / np.where(
                    d1 > 0, d1, 1), 0), "obs", "stacked flux", rtol=1e-8,
                    atol=1e-10, **wit)
                exp, norm = project(rf, spl * (m0 if residual else 1), co)
                mon.close(m, exp, "meancont", "mean continuum", rtol=1e-6,
                          atol=1e-7, **wit)
                mom = moments(rf, m, co)
                mon.close(mom[0], 1.0, "unit", "unit integral", rtol=1e-9)
                for c in range(1, co + 1):
                    mon.check(abs(mom[c]) < 2e-3, "orthogonal",
                              "mean continuum not orthogonal to order "
                              f"{c}: {mom[c]:.2e}", **wit)
                mon.close(node, m, "interp", "interpolator does not "
                          "reflect the new mean continuum", rtol=1e-9)
                mon.equal(m, res.values[0][rd][2], "mpi",
                          "mean continuum differs between ranks")
                upd = (m / m0 - 1) * norm / sd
                if np.all(np.abs(upd) < .3):
                    mon.count("must_converge")
                    mon.check(conv, "converged", "all updates well below a "
                              "third of their errors", actual=upd, **wit)
                elif np.any(np.abs(upd) > .4) and (upd**2).mean() > 5e-3:
                    mon.count("must_go_on")
                    mon.check(not conv, "converged", "converged with large "
                              "updates", actual=upd, **wit)
                mon.check(bool(conv) == bool(res.values[0][rd][5]), "mpi",
                          "ranks disagree on convergence", **wit)
                if flat:
                    mon.count("fixed")
                    # residual stack is one everywhere
                    mon.close(m, m0, "fixed", "flat residuals changed the "
                              "mean continuum", rtol=1e-6 if not co else
                              2e-3 if co < 4 else 1e-2,
                              **wit)
                    if good.all() and (start or not co):
                        mon.check(conv, "fixed", "no convergence at a "
                                  "fixed point", **wit)
        if base is None:
            base = [res.values[0][rd][2] for rd in range(2)]
        else:
            mon.count("invariance")
            for rd in range(2):
                mon.close(res.values[0][rd][2], base[rd], "invariance",
                          "mean continuum depends on the number of ranks",
                          rtol=1e-7, size=size)
    mon.state("mean", order, residual, rfd, flat, bool((~good).any()), start)


def run_flags(case, mon, rng, tmp):
    from qsonic.picca_continuum import PiccaContinuumFitter
    small.shrink_varlss(min_pix=15, min_qso=3)
    n = 60
    cat, data = pool(rng, n)
    if rng.random() < .5:
        # a third arm
        cut = int(rng.integers(100, 180))
        for k, d in data.items():
            if d:
                r = d["R"]
                d["R"], d["Z"] = r[..., :cut], r[..., cut:]
        mon.count("three_arms")
    ph = rng.uniform(0, 6)
    z = cat["Z"]
    for a, w in data["wave"].items():
        for k in range(n):
            rf = w / (1 + z[k])
            c = (1.5 + rng.random()) * (1 + .2 * np.sin(rf / 30 + ph)) * (
                1 + .1 * np.sin(w / 60 + ph))
            s = 10**rng.uniform(-1.2, 0, w.size)
            data["flux"][a][k] = c * (1 + .3 * rng.normal(0, 1, w.size)
                                      ) + s * rng.normal(0, 1, w.size)
            data["ivar"][a][k] = s**-2
        data["flux"][a][1] = -8.0    # an invalid fit
    if rng.random() < .4:
        x0 = rng.uniform(W1 + 60, W2 - 60)
        for a, w in data["wave"].items():
            data["mask"][a][:, np.abs(w - x0) < 13] = 1
    if rng.random() < .25:
        # the sky was oversubtracted: negative stack
        x0 = rng.uniform(W1 + 60, W2 - 60)
        mon.count("negative_stack")
        for a, w in data["wave"].items():
            data["flux"][a][:, np.abs(w - x0) < 13] *= -.3
    sm = float(rng.choice([0, 16.]))
    fiteta = bool(rng.random() < .7)
    nit = int(rng.integers(1, 4))
    base = dict(wave1=W1, wave2=W2, forest_w1=R1, forest_w2=R2, rfdwave=2.0,
                num_iterations=nit)
    if fiteta:
        base["var_fit_eta"] = True

    def one(size, **kw):
        args = fitter_args(**base, **kw)

        def fn(comm):
            specs.reset_statics()
            r = comm.Get_rank()
            sl = specs.build(cat, data, (W1, W2, R1, R2))[r::size]
            sl = [s for s in sl if s.get_real_size() > 40]
            for s in sl:
                if sm:
                    s.set_smooth_forestivar(sm)
            f = PiccaContinuumFitter(args)
            f.iterate(sl)
            return ({s.targetid: specs.state(s) for s in sl},
                    {s.targetid: bool(s.cont_params["valid"]) for s in sl},
                    f.flux_stacker.waveobs.copy(),
                    f.flux_stacker.stacked_flux.copy(),
                    (f.eta_interp.xp0, f.eta_interp.dxp,
                     f.eta_interp.fp.copy()))
        return fakempi.run(size, fn, seed=case["seed"] % 977)

    size = int(rng.integers(1, 4))
    norm, eta = [(True, False), (False, True), (True, True)][
        int(rng.integers(3))]
    p = one(size)
    kw = {}
    if norm:
        kw["normalize_stacked_flux"] = True
    if eta:
        kw["eta_calib_ivar"] = True
    q = one(size, **kw)
    for x in (p, q):
        if x.kinds() != ["ok"] * size:
            mon.check(len(set(x.kinds())) == 1 and not x.deadlock, "mpi",
                      "iterate: " + x.describe())
            mon.count("iterate_failed")
            return
    mon.count("flags")
    from checks.c16 import cubic_ref
    for r in range(size):
        a, va, wobs, st, ei = p.values[r]
        b, vb, _, st2, ei2 = q.values[r]
        mon.check(va == vb, "flags", "validity changed by the flags")
        mon.close(st2, st, "flags", "stack changed by the flags",
                  rtol=1e-9, atol=1e-12)
        mon.close(ei2[2], ei[2], "flags", "eta changed", rtol=1e-9)
        # a bin without any pixel (stack zero) leaves the continuum alone
        mon.count("norm_empty", (st == 0).sum())
        st = np.where(st == 0, 1, st)
        for t in a:
            wit = dict(norm=norm, eta=eta, valid=va[t])
            mon.count("invalid_spectra", not va[t])
            if va[t]:
                for arm, w in a[t]["forestwave"].items():
                    c = a[t]["cont"][arm]
                    if norm:
                        c = c * lin_ref(w, wobs[0], wobs[1] - wobs[0], st)
                        mon.count("norm_pixels", w.size)
                    mon.close(b[t]["cont"][arm], c, "norm",
                              "continuum with --normalize-stacked-flux",
                              rtol=1e-7, atol=1e-9, **wit)
            for arm, w in a[t]["forestwave"].items():
                i = a[t]["forestivar"][arm]
                if eta:
                    i = i / cubic_ref(w, *ei, "not-a-knot")
                    mon.count("eta_pixels", w.size)
                mon.close(b[t]["forestivar"][arm], i, "eta",
                          "ivar with --eta-calib-ivar", rtol=1e-7, **wit)
                mon.equal(b[t]["forestflux"][arm], a[t]["forestflux"][arm],
                          "frame", "flux changed by the flags", **wit)
    mon.state("flags", size, norm, eta, fiteta, bool(sm), nit)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "stack":
        run_stack(case, mon, rng)
    elif case["kind"] == "mean":
        run_mean(case, mon, rng, tmp)
    else:
        run_flags(case, mon, rng, tmp)
    mon.seen()
