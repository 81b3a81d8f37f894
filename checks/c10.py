"""C10: weights, ivar smoothing, chi2 and mean resolution."""
import copy

import numpy as np

from qv import poison, ref, specs, synth

RULE = ("random spectra (1-3 arms, f4/f8, masks up to fully masked arms, "
        "outlier noise, constant noise), smoothing scales, variance/eta "
        "functions, continua, validity flags and call sequences "
        "smooth->weight->unsmooth->weight; every pixel against the "
        "documented formula; distinct = (arms, dtype, smoothing, validity, "
        "mask level, noise kind)")
ASSUMPTIONS = ["the real-space width of the smoothing filter is judged by "
               "C16, here either of the two readings is accepted"]
REQUIRED = {"weights": 20000, "masked": 2000, "outliers": 200, "smooth": 300,
            "invalid": 60, "chi2": 300, "undo": 200, "const": 60,
            "reso": 150, "allmasked": 10, "poison_runs": 200,
            "undo_coadd": 20, "smooth_coadd": 20}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return [{"kind": "seq"}] * (160 * k)


def run_case(case, mon, tmp):
    from qsonic.spectrum import Spectrum
    rng = np.random.default_rng(case["seed"])
    specs.reset_statics()
    narm = int(rng.integers(1, 4))
    arms = ["B", "R", "Z"][:narm]
    dwave = float(rng.choice([0.8, 1.0, 0.5]))
    wave = specs.grids(rng, arms, dwave, nlo=30, nhi=120)
    n = 3
    cat = specs.catalog(rng, n)
    dt = str(rng.choice(["f4", "f8"]))
    tol = 2e-5 if dt == "f4" else 1e-9
    nd = int(rng.choice([5, 7, 11]))
    pm = float(rng.choice([0.02, 0.3, 0.8]))
    data = specs.data_dict(rng, wave, n, dt, reso=True, p_mask=pm,
                           ndiag={a: nd for a in arms})
    noise = str(rng.choice(["normal", "outlier", "const", "spikes"]))
    for a in arms:
        iv = data["ivar"][a]
        if noise == "outlier":
            w = rng.random(iv.shape) < 0.05
            iv[w] *= rng.choice([0.01, 0.001, 1e-6], w.sum()).astype(dt)
            w = rng.random(iv.shape) < 0.02
            iv[w] *= np.array(50, dt)
        elif noise == "const":
            iv[:] = rng.choice([0.25, 1.0, 3.7])
        elif noise == "spikes":
            # outliers over constant noise
            iv[:] = rng.choice([0.25, 1.0, 3.7])
            w = rng.random(iv.shape) < 0.05
            iv[w] *= rng.choice([0.5, 0.01, 1e-4], w.sum()).astype(dt)
    amp = 1.0
    if rng.random() < .25:
        # very faint or bright quasars
        amp = 10**float(rng.uniform(-2, 3))
        mon.count("scaled")
        for a in arms:
            data["flux"][a] *= np.array(amp, dt)
            data["ivar"][a] /= np.array(amp**2, dt)
            if rng.random() < .5:
                w = rng.random(data["flux"][a].shape) < .01
                data["flux"][a][w] *= np.array(300, dt)
    sl = specs.build(cat, data)
    am = rng.random() < 0.08
    vl, et, ph = rng.uniform(0, .5), rng.uniform(.5, 1.5), rng.uniform(0, 6)
    if rng.random() < .15:
        vl, et = 10**rng.uniform(-4, .3), 10**rng.uniform(-2, .3)

    def varlss(w):
        return vl * (1 + 0.5 * np.sin(w / 60 + ph))

    def eta(w):
        return et * (1 + 0.2 * np.cos(w / 90 + ph))

    def cont(w):
        return amp * (1.5 + 0.8 * np.sin(w / 50 + ph))

    for s in sl:
        if not s.forestwave:
            continue
        if am:
            a0 = list(s.forestivar)[0]
            s.forestivar[a0][:] = 0
            s.forestflux[a0][:] = 0
            mon.count("allmasked")
        org = specs.state(s)
        sizes = [float(rng.choice([16., 4., 40., 1., 0.3])),
                 float(rng.choice([0, -1., 8.])), 12.]
        for step, sm in enumerate(sizes):
            with poison.poison(5.0):
                s.set_smooth_forestivar(sm)
            st = specs.state(s)
            wit = dict(noise=noise, sm=sm, dtype=dt, step=step)
            for a in org["forestivar"]:
                iv = org["forestivar"][a]
                mon.equal(st["forestivar"][a], iv, "frame",
                          "smoothing changed ivar", **wit)
                ism = st["forestivar_sm"][a]
                mon.equal(st["forestweight"][a], ism, "weight-init",
                          "weight is the smoothed ivar", **wit)
                if sm <= 0:
                    mon.count("undo")
                    mon.equal(ism, iv, "undo", "smoothing not undone", **wit)
                    continue
                mon.count("smooth")
                m = iv == 0
                mon.check(np.all(ism[m] == 0), "masked",
                          "masked pixel got weight", **wit)
                mon.count("masked", m.sum())
                mon.check(np.all(np.isfinite(ism)) and np.all(ism[~m] > 0),
                          "positive", "smoothed ivar positive, finite",
                          actual=ism, **wit)
                if noise == "const":
                    mon.count("const")
                    mon.close(ism, iv, "const", "constant noise changed",
                              rtol=max(tol, 1e-6), **wit)
                    continue
                r1 = ref.smooth_ivar(iv, sm / s.dwave, exact=True)
                r2 = ref.smooth_ivar(iv, sm / s.dwave, exact=True,
                                     real_sigma=sm / s.dwave / 2 / np.pi)
                if r1 is None:
                    mon.count("ambiguous")
                    continue
                good = ~m
                if good.any():
                    e = iv[good].astype("f8")**-.5
                    med = np.median(e)
                    mad = 1.4826 * np.median(np.abs(e - med))
                    o = (e - med) > 3.5 * mad
                    mon.count("outliers", o.sum())
                    mon.close(ism[good][o], iv[good][o].astype("f8"),
                              "outlier", "outlier pixel lost its value",
                              rtol=max(tol, 1e-6), **wit)
                rt = max(tol, 1e-7) * 10
                ok = (np.allclose(ism, r1, rtol=rt, atol=0)
                      or np.allclose(ism, r2, rtol=rt, atol=0))
                if not ok:
                    mon.close(ism, r2, "smooth", "smoothed ivar", rtol=rt,
                              **wit)
                mon.check(ok, "smooth", "smoothed ivar", **wit)
            for pz in (np.nan,):
                s.set_smooth_forestivar(0)
                with poison.poison(pz):
                    s.set_smooth_forestivar(sm)
                mon.count("poison_runs")
                specs.same_state(mon, specs.state(s), st, "poison",
                                 "smoothing depends on recycled memory")
            # weights
            state = str(rng.choice(["valid", "valid", "invalid", "nocont"]))
            s.cont_params["valid"] = state in ("valid", "nocont")
            c0 = {a: cont(w) for a, w in s.forestwave.items()}
            s.cont_params["cont"] = (
                {a: c.copy() for a, c in c0.items()} if state != "nocont"
                else ([{}, None][int(rng.integers(2))]))
            mode = int(rng.integers(3))
            if mode == 0:
                s.set_forest_weight(varlss, eta)
                v, e = varlss, eta
            elif mode == 1:
                s.set_forest_weight(varlss)
                v, e = varlss, (lambda w: np.ones_like(w))
            else:
                s.set_forest_weight()
                v, e = (lambda w: np.zeros_like(w)), (
                    lambda w: np.ones_like(w))
            fw = s.forestweight
            mon.check(sorted(fw) == sorted(s.forestivar), "weight",
                      "arms of the weights", **wit)
            chi2 = 0.0
            for a, w in s.forestwave.items():
                ism = s.forestivar_sm[a].astype("f8")
                mon.equal(s.forestivar_sm[a], st["forestivar_sm"][a],
                          "frame", "weights changed smoothed ivar", **wit)
                mon.equal(s.forestivar[a], org["forestivar"][a], "frame",
                          "weights changed ivar", **wit)
                mon.equal(s.forestflux[a], org["forestflux"][a], "frame",
                          "weights changed flux", **wit)
                if state == "valid":
                    exp = ref.weight(ism, v(w), e(w), c0[a])
                    chi2 += float((exp * (s.forestflux[a].astype("f8")
                                          - c0[a])**2).sum())
                else:
                    mon.count("invalid")
                    exp = ism
                mon.count("weights", w.size)
                mon.close(fw[a], exp, "weight", "weight formula", rtol=tol,
                          state=state, mode=mode, **wit)
                mon.check(np.all(fw[a] >= 0) and np.array_equal(
                    fw[a] == 0, org["forestivar"][a] == 0), "masked",
                    "zero weight exactly at masked pixels", **wit)
            if state != "nocont":
                for a, c in c0.items():
                    mon.equal(s.cont_params["cont"][a], c, "frame",
                              "weights changed the continuum")
            r = s.calc_continuum_chi2()
            mon.count("chi2")
            if state == "valid":
                mon.close(r, chi2, "chi2", "chi2", rtol=10 * tol + 1e-6,
                          atol=1e-6, **wit)
                mon.close(s.cont_params["chi2"], chi2, "chi2", "stored chi2",
                          rtol=10 * tol + 1e-6, atol=1e-6, **wit)
            else:
                mon.check(r == -1 and s.cont_params["chi2"] == -1, "chi2",
                          "chi2 of an invalid spectrum", actual=r)
            # resolution
            if rng.random() < .4:
                for a, w in s.forestwave.items():
                    off = np.arange(nd) - nd // 2
                    p = np.exp(-.5 * (off / rng.uniform(1.5, 9.))**2) \
                        * rng.uniform(.98, 1., nd)
                    p[nd // 2] = 1.01
                    s.forestreso[a][:] = (p / p.sum())[:, None]
            for a, w in s.forestwave.items():
                wt = None if rng.random() < 0.6 else rng.uniform(
                    0, 1, w.size)
                use = s.forestweight[a] if wt is None else wt
                if np.sum(use) <= 0:
                    continue
                m = (s.mean_resolution(a) if wt is None
                     else s.mean_resolution(a, wt))
                mon.count("reso")
                mon.close(m, ref.mean_reso_kms(s.forestreso[a], w, use,
                                               dwave), "reso",
                          "mean resolution", rtol=1e-4, **wit)
            # what is derived later uses the scale now in force
            if narm > 1 and step < 2 and rng.random() < .5:
                s2 = copy.deepcopy(s)
                s2.cont_params["valid"] = False
                s2.coadd_arms_forest(varlss, eta)
                iv2 = s2.forestivar["brz"]
                if sm <= 0:
                    mon.count("undo_coadd")
                    mon.equal(s2.forestivar_sm["brz"], iv2, "undo",
                              "smoothing returns in the coadd", **wit)
                    mon.equal(s2.forestweight["brz"], iv2, "undo",
                              "weight of the unsmoothed coadd", **wit)
                else:
                    rr = [ref.smooth_ivar(iv2, sm / s.dwave),
                          ref.smooth_ivar(iv2, sm / s.dwave, real_sigma=sm
                                          / s.dwave / 2 / np.pi)]
                    if rr[0] is not None and rr[1] is not None:
                        mon.count("smooth_coadd")
                        mon.check(any(np.allclose(
                            s2.forestivar_sm["brz"], r, rtol=max(
                                tol, 1e-7) * 10, atol=0) for r in rr),
                            "smooth", "smoothed ivar of the coadd", **wit)
            # a Gaussian matrix gives back its width
            g = {}
            for a, w in s.forestwave.items():
                sig = float(rng.uniform(0.7, 1.6) if rng.random() < .6
                            else rng.uniform(1.6, 6.))
                off = np.arange(nd) - nd // 2
                p = np.exp(-0.5 * (off / sig)**2)
                g[a] = sig
                s.forestreso[a][:] = (p / p.sum())[:, None]
            for a, w in s.forestwave.items():
                use = np.ones(w.size)
                mon.close(s.mean_resolution(a, use),
                          g[a] * 3e5 * dwave / w.mean(), "reso",
                          "width of a Gaussian resolution matrix", rtol=1e-3,
                          ndiag=nd)
        mon.state(narm, dt, tuple(np.sign(sizes)), noise, pm, am)
    s = specs.build(cat, dict(data, reso={}))[0]
    for a in s.forestwave:
        mon.check(s.mean_resolution(a) is None, "reso",
                  "mean resolution without a matrix is None")
    mon.seen()
