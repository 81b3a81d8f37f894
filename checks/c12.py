"""C12: true and input continua."""
import os

import numpy as np

from qv import ref, specs, synth
from checks.c16 import cubic_ref, lin_ref

RULE = ("random sky positions over several nside-8 HEALPix, continuum files "
        "with shuffled rows, extra and missing targets, missing and corrupt "
        "files, continua that are negative, zero or NaN inside or outside "
        "the forest, repeated TARGETIDs (exposures), spectra in two orders; "
        "every continuum pixel tagged by target and compared with a "
        "reference spline; distinct = (mode, arms, file state, defect)")
ASSUMPTIONS = ["a NaN of an input continuum outside the forest may or may "
               "not invalidate the target (a spline spreads it)"]
REQUIRED = {"true_pixels": 5000, "input_pixels": 5000, "valid": 150,
            "missing": 30, "nofile": 20, "badfile": 2, "nonpositive": 20,
            "nan": 4, "outside_neg": 8, "duplicates": 8, "orders": 40,
            "mismatch": 1, "empty": 2, "again": 15, "allzero": 8, "large": 1,
            "deep": 15, "masked_nonpositive": 20}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return ([{"kind": "true"}] * (60 * k) + [{"kind": "input"}] * (90 * k))


W1, W2, R1, R2 = 3600., 5600., 1050., 1180.


def interps(rng):
    from qsonic.mathtools import FastCubic1DInterp, FastLinear1DInterp
    mf = np.exp(-rng.uniform(.1, .5) * np.linspace(.5, 1.5, 25))
    if rng.random() < .2:
        mf *= rng.uniform(1.1, 2.0)   # any table is a legal fiducial
    vl = rng.uniform(.02, .3, 25)
    et = rng.uniform(.7, 1.4, 25)
    lin = rng.random() < .5
    M = FastLinear1DInterp(3500., 100., mf)
    V = (FastLinear1DInterp if lin else FastCubic1DInterp)(3500., 100., vl)
    E = FastCubic1DInterp(3500., 100., et)

    def fm(w):
        return lin_ref(w, 3500., 100., mf)

    def fv(w):
        return (lin_ref(w, 3500., 100., vl) if lin else
                cubic_ref(w, 3500., 100., vl, "not-a-knot"))

    def fe(w):
        return cubic_ref(w, 3500., 100., et, "not-a-knot")
    return (M, V, E), (fm, fv, fe)


def spectra(rng, n, dup=False):
    arms = ["B", "R"][:int(rng.integers(1, 3))]
    wave = {"B": np.arange(W1, 4700, 4.0), "R": np.arange(4500., W2 + 60, 4.)}
    wave = {a: wave[a] for a in arms}
    cat = specs.catalog(rng, n, z=rng.uniform(
        2.3, 2.9 if len(arms) == 1 else 3.6, n))
    ra0, dec0 = rng.uniform(20, 340), rng.uniform(-50, 50)
    cat["RA"] = ra0 + rng.uniform(-12, 12, n)
    cat["DEC"] = dec0 + rng.uniform(-8, 8, n)
    if dup and n > 3:
        for q in ("TARGETID", "Z", "RA", "DEC", "HPXPIXEL", "SURVEY"):
            cat[q][1] = cat[q][0]
    data = specs.data_dict(rng, wave, n, str(rng.choice(["f4", "f8"])),
                           p_mask=float(rng.choice([0.02, 0.3])))
    return cat, data, wave


def judge(mon, s, exp, funcs, key, wit):
    """exp: arm -> continuum before the mean flux, or None if invalid."""
    fm, fv, fe = funcs
    cp = s.cont_params
    if exp is None:
        mon.check(not cp["valid"], key, "invalid continuum accepted", **wit)
        mon.check(not cp["cont"], key, "invalid target has a continuum",
                  **wit)
        mon.check(cp["chi2"] == -1, key, "chi2 of an invalid target", **wit)
        from qsonic.spectrum import valid_spectra
        mon.check(not list(valid_spectra([s])), key,
                  "invalid target is listed as valid", **wit)
        return
    if not mon.check(cp["valid"] and cp["cont"] and sorted(cp["cont"])
                     == sorted(s.forestwave), key,
                     "target with a good continuum is not valid", **wit):
        return
    mon.count("valid")
    chi2 = 0.0
    for a, w in s.forestwave.items():
        c = exp[a] * fm(w)
        mon.count(key + "_pixels", w.size)
        mon.close(cp["cont"][a], c, key, "continuum of the target",
                  rtol=1e-6, atol=1e-7 * np.abs(c).max(), **wit)
        i = s.forestivar_sm[a].astype("f8")
        ew = ref.weight(i, fv(w), fe(w), c)
        mon.close(s.forestweight[a], ew, "weight", "weights", rtol=2e-5,
                  atol=1e-12, **wit)
        chi2 += float((ew * (s.forestflux[a].astype("f8") - c)**2).sum())
    mon.close(cp["chi2"], chi2, "chi2", "chi2", rtol=1e-4, atol=1e-4, **wit)
    mon.check(cp["dof"] == s.get_real_size(), "dof", "dof", **wit)


def run_true(case, mon, rng):
    from qsonic.continuum_models import TrueContinuumModel
    specs.reset_statics()
    cat, data, wave = spectra(rng, 4)
    sl = specs.build(cat, data, (W1, W2, R1, R2))
    sl = [s for s in sl if s.forestwave]
    (M, V, E), (fm, fv, fe) = interps(rng)
    dw = float(rng.choice([2.0, 5.0, 7.3]))
    w1 = float(rng.uniform(3300, 3590))
    n = int((W2 + 100 - w1) / dw)
    tab = {}
    for s in sl:
        t = 2 + rng.random() + np.cumsum(rng.normal(0, .05, n))
        t = np.abs(t) + 0.3
        if rng.random() < .3:
            # a deep trough, as next to a strong emission line
            x = w1 + dw * np.arange(n)
            t *= 1 - rng.uniform(.95, .995) * np.exp(-.5 * (
                (x - rng.uniform(3700, 4700)) / (8 * dw))**2)
            t[int(rng.integers(n))] *= 3
            t = np.abs(t) + 1e-3
            mon.count("deep")
        tab[id(s)] = t
        s.cont_params["true_data_w1"] = w1
        s.cont_params["true_data_dwave"] = dw
        s.cont_params["true_data"] = t.copy()
        if rng.random() < .5:
            s.set_smooth_forestivar(16.)
    m = TrueContinuumModel(M, V)
    order = [int(x) for x in rng.permutation(len(sl))]
    mon.count("orders")
    m.init_spectra([sl[k] for k in order])
    for rnd in range(2):
        for k in order:
            m.fit_continuum(sl[k])
        for k, s in enumerate(sl):
            mon.check(s.cont_params["method"] == "true", "method", "method")
            exp = {a: cubic_ref(w, w1, dw, tab[id(s)], "not-a-knot")
                   for a, w in s.forestwave.items()}
            judge(mon, s, exp, (fm, fv, lambda w: np.ones_like(w)), "true",
                  dict(spec=k, round=rnd))
            mon.equal(s.cont_params["true_data"], tab[id(s)], "frame",
                      "true continuum modified")
    mon.state("true", len(wave), dw, len(sl))


def run_input(case, mon, rng, tmp):
    import fitsio
    from healpy import ang2pix
    from qsonic.continuum_models import InputContinuumModel
    specs.reset_statics()
    n = int(rng.integers(4, 10)) if rng.random() < .96 else 70
    mon.count("large", n == 70)
    dup = rng.random() < .3
    cat, data, wave = spectra(rng, n, dup)
    mon.count("duplicates", dup)
    sl = specs.build(cat, data, (W1, W2, R1, R2))
    (M, V, E), funcs = interps(rng)
    nside = int(rng.choice([8, 8, 4, 16]))
    pix = ang2pix(nside, cat["RA"], cat["DEC"], lonlat=True, nest=True)
    more = () if nside == 8 else (nside,)
    exp, kinds, states = {}, {}, {}
    cdir = tmp + "/conts"
    os.makedirs(cdir)
    for p in np.unique(pix):
        st = str(rng.choice(["ok", "nofile", "garbage", "noext"],
                            p=[.8, .1, .05, .05]))
        states[int(p)] = st
        w1 = float(rng.uniform(980, 1035))
        dw = float(rng.choice([0.8, 1.0, 2.5, 3.3]))
        nw = int((1215 - w1) / dw)
        rf = w1 + dw * np.arange(nw)
        tids, cs = [], []
        for k in np.nonzero(pix == p)[0]:
            t = int(cat["TARGETID"][k])
            if t in kinds:
                continue
            kd = str(rng.choice(["ok", "missing", "neg", "zero", "nan",
                                 "outneg", "allzero"], p=[
                                     .5, .12, .1, .05, .07, .1, .06]))
            if st == "ok":
                kinds[t] = kd
            else:
                kinds[t] = "nofile"
            c = (1 + rng.random() + 0.3 * np.sin(rf / 15 + 6 * rng.random())
                 + 1e-3 * (rf - 1100))
            j = int(rng.choice(np.nonzero((rf > 1085) & (rf < 1145))[0]))
            if kd == "neg":
                c[max(0, j - 3):j + 4] = -0.4
            elif kd == "zero":
                c[max(0, j - 8):j + 9] = 0
            elif kd == "allzero":
                c[:] = 0
            elif kd == "nan":
                c[j] = np.nan
            elif kd == "outneg":
                c[(rf < R1 - 6 * dw)] = -1.0
                c[(rf > R2 + 8 * dw)] = -1.0
            if kd != "missing":
                tids.append(t)
                cs.append(c)
            exp[t] = (w1, dw, c)
        for _ in range(int(rng.integers(0, 4)) if rng.random() < .95
                       else 150):   # strangers
            tids.append(int(rng.integers(1, 2**40)))
            cs.append(5 + rng.random(nw))
        if not tids:
            tids, cs = [7], [np.ones(nw) * 9]
        o = rng.permutation(len(tids))
        f = f"{cdir}/input-continuum-{nside}-{p}.fits"
        if st == "nofile":
            continue
        if st == "garbage":
            open(f, "wb").write(b"not a fits file" * 100)
            continue
        fb = np.zeros(len(tids), dtype=[("TARGETID", "i8"), ("Z", "f8"),
                                        ("RA", "f8"), ("DEC", "f8")])
        fb["TARGETID"] = np.array(tids)[o]
        with fitsio.FITS(f, "rw", clobber=True) as ft:
            ft.write(fb, extname="FIBERMAP")
            img = np.array(cs)[o].astype(rng.choice(["f4", "f8"]))
            for i, t in enumerate(np.array(tids)[o]):
                if int(t) in exp:
                    a, b, _ = exp[int(t)]
                    exp[int(t)] = (a, b, img[i].astype("f8"))
            ft.write(img, extname="CONTINUA" if st == "ok" else "CONTI",
                     header={"WAVE1": w1, "DWAVE": dw})
    if rng.random() < .1:
        # counts of FIBERMAP and CONTINUA differ
        p = int(pix[0])
        with fitsio.FITS(f"{cdir}/input-continuum-{nside}-{p}.fits", "rw",
                         clobber=True) as ft:
            fb = np.zeros(3, dtype=[("TARGETID", "i8")])
            fb["TARGETID"] = [cat["TARGETID"][0], 5, 6]
            ft.write(fb, extname="FIBERMAP")
            ft.write(np.ones((int(rng.choice([2, 4])), 100)), extname="CONTINUA",
                     header={"WAVE1": 1000., "DWAVE": 2.})
        mon.count("mismatch")
        m = InputContinuumModel(cdir, M, V, E, *more)
        mon.raises(lambda: m.init_spectra(sl), "mismatch",
                   "mismatched file accepted")
        return
    for k, s in enumerate(sl):
        # masked pixels are in the forest too
        t = int(cat["TARGETID"][k])
        if kinds[t] not in ("neg", "zero") or rng.random() < .5:
            continue
        w1, dw, c = exp[t]
        for a, w in s.forestwave.items():
            b = cubic_ref(w / (1 + s.z_qso), w1, dw, c, "not-a-knot") <= 1e-6
            mon.count("masked_nonpositive", b.sum())
            s.forestflux[a][b] = 0
            s.forestivar[a][b] = 0
            s.forestivar_sm[a][b] = 0
            s.forestweight[a][b] = 0
    m = InputContinuumModel(cdir, M, V, E, *more)
    if rng.random() < .2:
        mon.count("empty")
        m.init_spectra([])   # a process without spectra
    order = [int(x) for x in rng.permutation(n)]
    mon.count("orders")
    again = rng.random() < .4
    for rnd in range(2 if again else 1):
        mon.count("again", rnd)
        lst = [sl[k] for k in order]
        if rnd == 0 or rng.random() < .5:
            m.init_spectra(lst)
        mon.check(all(a is sl[k] for a, k in zip(lst, order)), "frame",
                  "list of spectra reordered")
        for s in lst:
            m.fit_continuum(s)
        for k, s in enumerate(sl):
            t = int(cat["TARGETID"][k])
            mon.check(s.targetid == t, "frame", "TARGETID changed")
            kd = kinds[t]
            wit = dict(spec=k, kind=kd, files=str(states), round=rnd)
            mon.check(s.cont_params["method"] == "input", "method", "method")
            if not s.forestwave:
                continue
            mon.count({"missing": "missing", "nofile": "nofile",
                       "neg": "nonpositive", "zero": "nonpositive",
                       "allzero": "allzero",
                       "nan": "nan", "outneg": "outside_neg",
                       "ok": "plain"}[kd])
            mon.count("badfile", kd == "nofile" and states[int(
                pix[k])] != "nofile")
            if kd in ("missing", "nofile", "allzero"):
                e = None
            else:
                w1, dw, c = exp[t]
                rfw = {a: w / (1 + s.z_qso) for a, w in s.forestwave.items()}
                if kd == "nan":
                    allrf = np.concatenate(list(rfw.values()))
                    jn = w1 + dw * np.nonzero(np.isnan(c))[0][0]
                    if not (allrf.min() < jn < allrf.max()):
                        continue
                    e = None
                else:
                    e = {a: cubic_ref(x, w1, dw, c, "not-a-knot")
                         for a, x in rfw.items()}
                    lo = min(x.min() for x in e.values())
                    if abs(lo) < 1e-6:
                        mon.count("marginal")
                        continue
                    if lo <= 0:
                        e = None
            judge(mon, s, e, funcs, "input", wit)
            mon.state("input", len(wave), kd, states[int(pix[k])], dup)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "true":
        run_true(case, mon, rng)
    else:
        run_input(case, mon, rng, tmp)
    mon.seen()
