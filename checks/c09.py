"""C09: arm coaddition."""
import numpy as np

from qv import poison, specs, synth

RULE = ("random 1-3 arm layouts (overlap, touch, gap, contained), masks "
        "including fully masked arms, weights from continuum and variance "
        "functions, smoothing, resolution widths, arm orders and half-pixel "
        "offset arms; every output pixel against a per-pixel weighted sum, "
        "re-run with poisoned uninitialised memory; distinct = (mode, arms, "
        "layout, continuum, reso widths, empty arms)")
ASSUMPTIONS = ["arms share one wavelength step; grids aligned to 1e-6 pixel "
               "for exact judgement"]
REQUIRED = {"coadds": 300, "overlap_pixels": 2000, "gap_pixels": 300,
            "single_pixels": 3000, "reso_pixels": 2000, "masked_both": 30,
            "order_runs": 60, "poison_runs": 300, "all_masked": 8,
            "shifted": 20, "with_cont": 60, "conserved": 20, "big": 3}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return ([{"kind": "forest"}] * (140 * k) + [{"kind": "simple"}] * (80 * k)
            + [{"kind": "shifted"}] * (25 * k))


def layout(rng, arms, dwave, w0, big=False):
    wave, start, kinds = {}, 0, []
    for a in arms:
        n = int(rng.integers(25, 60) if not big else rng.integers(1500, 2900))
        wave[a] = w0 + dwave * (start + np.arange(n))
        k = str(rng.choice(["overlap", "touch", "gap", "contained"],
                           p=[.4, .2, .25, .15]))
        kinds.append(k)
        start += {"overlap": n - int(rng.integers(1, 20)), "touch": n,
                  "gap": n + int(rng.integers(1, 12)),
                  "contained": 3}[k]
    return wave, tuple(kinds[:-1])


def reference(wave, flux, ivar, weight, reso, dwave):
    """Per pixel weighted average on the union grid (index based)."""
    w0 = min(w[0] for w in wave.values())
    w1 = max(w[-1] for w in wave.values())
    n = int(round((w1 - w0) / dwave)) + 1
    out = dict(wave=w0 + dwave * np.arange(n), flux=np.zeros(n),
               ivar=np.zeros(n), cover=np.zeros(n, int),
               good=np.zeros(n, int))
    contrib = [[] for _ in range(n)]
    for a in wave:
        for j, w in enumerate(wave[a]):
            contrib[int(round((w - w0) / dwave))].append((a, j))
    nd = max((reso[a].shape[0] for a in reso), default=0)
    out["reso"] = np.zeros((nd, n))
    for p, lst in enumerate(contrib):
        out["cover"][p] = len(lst)
        sw = sf = sv = 0.0
        for a, j in lst:
            w = float(weight[a][j])
            if w > 0:
                out["good"][p] += 1
                sw += w
                sf += w * float(flux[a][j])
                sv += w * w / float(ivar[a][j])
        if sw > 0:
            out["flux"][p] = sf / sw
            out["ivar"][p] = sw * sw / sv
        if nd and lst:
            ww = np.array([float(weight[a][j]) for a, j in lst])
            if ww.sum() == 0:
                ww[:] = 1
            acc = np.zeros(nd)
            for (a, j), x in zip(lst, ww / ww.sum()):
                r = reso[a][:, j].astype("f8")
                pad = (nd - r.size) // 2
                acc[pad:pad + r.size] += x * r
            out["reso"][:, p] = acc
    return out


def conserved(mon, flux0, ivar0, flux1, ivar1):
    """With inverse-variance weights every input pixel counts once."""
    mon.count("conserved")

    def tot(f, i):
        i = {a: x.astype("f8") for a, x in i.items()}
        return (sum(x.sum() for x in i.values()),
                sum((x * f[a]).sum() for a, x in i.items()),
                sum((x * np.abs(f[a])).sum() for a, x in i.items()))
    a, b = tot(flux0, ivar0), tot(flux1, ivar1)
    mon.close(b[0], a[0], "ivar", "pixels of the offset arm lost",
              rtol=1e-5)
    mon.close(b[1], a[1], "flux", "pixels of the offset arm lost",
              rtol=1e-5, atol=1e-5 * a[2])


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    narm = int(rng.choice([1, 2, 2, 3]))
    arms = ["B", "R", "Z"][:narm]
    dwave = float(rng.choice([0.8, 1.0, 0.5, 0.375]))
    big = rng.random() < .02    # arms of a real spectrograph
    mon.count("big", big)
    wave, kinds = layout(rng, arms, dwave, float(rng.integers(3600, 4000)),
                         big)
    shifted = case["kind"] == "shifted"
    if shifted:
        wave[arms[-1]] = wave[arms[-1]] + 0.5 * dwave
    n = 3
    cat = specs.catalog(rng, n)
    dt = str(rng.choice(["f4", "f8"]))
    hasreso = rng.random() < 0.7
    nd = {a: int(rng.choice([5, 7, 11])) for a in arms}
    data = specs.data_dict(rng, wave, n, dt, reso=hasreso, p_mask=float(
        rng.choice([0.05, 0.3, 0.7])), ndiag=nd)
    empty = None
    if rng.random() < 0.2:
        empty = str(rng.choice(arms))
        data["mask"][empty][0] = 1
    allmask = rng.random() < 0.08
    tol = 1e-5 if dt == "f4" else 1e-9
    withcont = rng.random() < 0.5
    smooth = float(rng.choice([0, 0, 16.0, 5.0]))
    vl, et = float(rng.uniform(0.02, 0.3)), float(rng.uniform(0.8, 1.3))
    phase = float(rng.random())

    def varlss(w):
        return vl * (1 + 0.2 * np.sin(w / 50))

    def eta(w):
        return et * (1 + 0.1 * np.cos(w / 70))

    def cont(w):
        return 2 + 0.5 * np.sin(w / 40 + phase)

    def prepare(order):
        specs.reset_statics()
        d = dict(data)
        for q in ("wave", "flux", "ivar", "mask", "reso"):
            d[q] = {a: data[q][a] for a in order if a in data[q]}
        return specs.build(cat, d), d

    before = []

    def simple(order, pz):
        from qsonic.spectrum import Spectrum
        specs.reset_statics()
        d = dict(data)
        for q in ("wave", "flux", "ivar", "mask", "reso"):
            d[q] = {a: data[q][a] for a in order if a in data[q]}
        sl = [Spectrum.from_dictionary(cat[k], d, k) for k in range(n)]
        before[:] = [({a: x.copy() for a, x in s.flux.items()},
                      {a: x.copy() for a, x in s.ivar.items()}) for s in sl]
        ref = None
        if pz is None:
            ref = [reference(s.wave, s.flux, s.ivar, s.ivar, s.reso, dwave)
                   if not shifted else None for s in sl]
        with poison.poison(7.0 if pz is None else pz):
            for s in sl:
                s.simple_coadd()
        return sl, ref

    if case["kind"] == "simple" or (shifted and rng.random() < 0.5):
        sl, refs = simple(arms, None)
        if shifted:
            mon.count("shifted")
            # the half-pixel-offset arm (mock Z arm): nothing may be lost
            for k, s in enumerate(sl):
                mon.finite(s.flux["brz"], "finite", "shifted coadd flux")
                mon.finite(s.ivar["brz"], "finite", "shifted coadd ivar")
                w = s.wave["brz"]
                mon.close(np.diff(w), np.full(w.size - 1, dwave), "grid",
                          "evenly spaced grid", rtol=1e-6)
                mon.check(w.size == s.flux["brz"].size == s.ivar["brz"].size,
                          "grid", "sizes differ")
                conserved(mon, before[k][0], before[k][1], s.flux, s.ivar)
            mon.state("shifted-simple", narm, kinds)
            mon.seen()
            return
        for k, (s, r) in enumerate(zip(sl, refs)):
            mon.count("coadds")
            wit = dict(spec=k, arms=arms, kinds=kinds)
            if not mon.check(list(s.wave) == ["brz"] and
                             list(s.flux) == ["brz"], "grid", "single arm"):
                continue
            mon.close(s.wave["brz"], r["wave"], "grid", "coadd grid",
                      rtol=1e-9, **wit)
            mon.close(s.flux["brz"], r["flux"], "flux", "coadded flux",
                      rtol=tol, atol=tol, **wit)
            mon.close(s.ivar["brz"], r["ivar"], "ivar", "coadded ivar",
                      rtol=tol, atol=tol, **wit)
            mon.count("overlap_pixels", (r["good"] > 1).sum())
            mon.count("single_pixels", (r["good"] == 1).sum())
            mon.count("gap_pixels", (r["cover"] == 0).sum())
            mon.count("masked_both", ((r["good"] == 0) & (
                r["cover"] > 1)).sum())
            if hasreso:
                m = r["cover"] > 0
                mon.count("reso_pixels", m.sum())
                mon.close(s.reso["brz"][:, m], r["reso"][:, m], "reso",
                          "coadded resolution", rtol=1e-4, atol=3e-5, **wit)
                mon.finite(s.reso["brz"], "finite", "resolution", **wit)
        for pz in (np.nan, 1e200):
            s2, _ = simple(arms, pz)
            mon.count("poison_runs", n)
            for a, b in zip(sl, s2):
                for q in ("flux", "ivar", "reso"):
                    for arm in getattr(a, q):
                        mon.equal(getattr(b, q)[arm], getattr(a, q)[arm],
                                  "poison", f"{q} depends on uninitialised "
                                  "memory")
        if narm > 1:
            s2, _ = simple([str(x) for x in rng.permutation(arms)], 3.0)
            mon.count("order_runs")
            for a, b in zip(sl, s2):
                for q in ("wave", "flux", "ivar", "reso"):
                    for arm in getattr(a, q):
                        mon.close(getattr(b, q)[arm], getattr(a, q)[arm],
                                  "order", f"{q} depends on arm order",
                                  rtol=tol * 10, atol=tol)
        mon.state("simple", narm, kinds, hasreso and tuple(sorted(
            set(nd.values()))), empty is not None)
        mon.seen()
        return

    def forest(order, pz):
        sl, d = prepare(order)
        ins = []
        for s in sl:
            if not s.forestwave:
                continue
            if allmask:
                for a in s.forestivar:
                    s.forestivar[a][:] = 0
                    s.forestflux[a][:] = 0
            if smooth:
                s.set_smooth_forestivar(smooth)
            if withcont:
                s.cont_params["valid"] = True
                s.cont_params["cont"] = {
                    a: cont(w) for a, w in s.forestwave.items()}
                s.set_forest_weight(varlss, eta)
            ins.append(specs.state(s))
        out = [s for s in sl if s.forestwave]
        with poison.poison(7.0 if pz is None else pz):
            for s in out:
                s.coadd_arms_forest(varlss, eta)
        return ins, out

    ins, out = forest(arms, None)
    if shifted:
        mon.count("shifted")
        for b, s in zip(ins, out):
            a = specs.state(s)
            for q in ("forestflux", "forestivar", "forestweight",
                      "forestivar_sm", "cont"):
                for arm in a[q]:
                    mon.finite(a[q][arm], "finite", f"shifted {q}")
            # S/N squared is conserved up to the weighting loss
            mon.check(a["forestivar"]["brz"].sum() <= sum(
                x.sum() for x in b["forestivar"].values()) * (1 + 1e-5),
                "ivar", "coadd created information")
            if not withcont and not smooth:
                conserved(mon, b["forestflux"], b["forestivar"],
                          a["forestflux"], a["forestivar"])
        mon.state("shifted-forest", narm, kinds)
        mon.seen()
        return
    for b, s in zip(ins, out):
        mon.count("coadds")
        mon.count("with_cont", withcont)
        mon.count("all_masked", allmask)
        a = specs.state(s)
        wit = dict(kinds=kinds, smooth=smooth, withcont=withcont,
                   arms=sorted(b["forestwave"]))
        ok = all(sorted(a[q]) == ["brz"] for q in (
            "forestwave", "forestflux", "forestivar", "forestivar_sm",
            "forestweight"))
        if not mon.check(ok, "grid", "single arm brz expected", **wit):
            continue
        r = reference(b["forestwave"], b["forestflux"], b["forestivar"],
                      b["forestweight"], b["forestreso"], dwave)
        w = a["forestwave"]["brz"]
        mon.close(w, r["wave"], "grid", "coadd grid", rtol=1e-9, **wit)
        mon.close(a["forestflux"]["brz"], r["flux"], "flux", "coadded flux",
                  rtol=tol, atol=tol, **wit)
        mon.close(a["forestivar"]["brz"], r["ivar"], "ivar", "coadded ivar",
                  rtol=tol, atol=tol, **wit)
        mon.count("overlap_pixels", (r["good"] > 1).sum())
        mon.count("single_pixels", (r["good"] == 1).sum())
        mon.count("gap_pixels", (r["cover"] == 0).sum())
        mon.count("masked_both", ((r["good"] == 0) & (r["cover"] > 1)).sum())
        good = r["ivar"] > 0
        snr = (np.sqrt(r["ivar"]) * r["flux"]).sum() / max(1, good.sum())
        mon.check(np.isfinite(a["snr"][1].get("brz", np.nan)), "finite",
                  "mean S/N not finite", **wit)
        mon.close(a["snr"][1]["brz"], snr, "snr", "S/N of the coadd",
                  rtol=tol * 10, atol=tol, **wit)
        mon.check(a["snr"][0] == b["snr"][0], "snr", "red-side S/N changed")
        ism = a["forestivar_sm"]["brz"]
        if not smooth:
            mon.equal(ism, a["forestivar"]["brz"], "weight",
                      "unsmoothed ivar", **wit)
        else:
            from qsonic.mathtools import get_smooth_ivar
            mon.close(ism, get_smooth_ivar(
                a["forestivar"]["brz"], smooth / dwave), "weight",
                "smoothed ivar", rtol=1e-6, **wit)
        if withcont:
            cover = r["cover"] > 0
            c = a["cont"]["brz"]
            mon.close(c[cover], cont(r["wave"])[cover], "cont",
                      "coadded continuum", rtol=1e-6, **wit)
            mon.finite(c, "finite", "continuum", **wit)
            mon.close(a["forestweight"]["brz"],
                      ism / (eta(w) + ism * varlss(w) * c**2), "weight",
                      "weights after coadd", rtol=1e-6, atol=1e-12, **wit)
        else:
            mon.equal(a["forestweight"]["brz"], ism, "weight",
                      "weights without continuum", **wit)
            mon.check(not a["cont"], "cont", "continuum appeared", **wit)
        for q in ("forestflux", "forestivar", "forestivar_sm",
                  "forestweight"):
            mon.finite(a[q]["brz"], "finite", q, **wit)
        if hasreso:
            m = r["cover"] > 0
            mon.count("reso_pixels", m.sum())
            mon.close(a["forestreso"]["brz"][:, m], r["reso"][:, m], "reso",
                      "coadded resolution", rtol=1e-4, atol=3e-5, **wit)
            mon.finite(a["forestreso"]["brz"], "finite", "resolution", **wit)
        else:
            mon.check(not a["forestreso"], "reso", "resolution appeared")
    base = [specs.state(s) for s in out]
    for pz in (np.nan, 1e200):
        _, o2 = forest(arms, pz)
        mon.count("poison_runs", len(o2))
        for a, b in zip(base, o2):
            specs.same_state(mon, specs.state(b), a, "poison",
                             "coadd depends on uninitialised memory")
    if narm > 1:
        _, o2 = forest([str(x) for x in rng.permutation(arms)], 3.0)
        mon.count("order_runs")
        for a, b in zip(base, o2):
            b = specs.state(b)
            for q in ("forestwave", "forestflux", "forestivar",
                      "forestweight", "forestreso", "cont"):
                for arm in a[q]:
                    mon.close(b[q][arm], a[q][arm], "order",
                              f"{q} depends on arm order", rtol=tol * 10,
                              atol=tol)
    mon.state("forest", narm, kinds, withcont, bool(smooth),
              hasreso and tuple(sorted(set(nd.values()))),
              empty is not None, allmask)
    mon.seen()
