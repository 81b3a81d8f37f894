"""C08: noise and flux calibration."""
import numpy as np
from scipy.interpolate import CubicSpline

from qv import fakempi, specs, synth

RULE = ("random VAR_FUNC/STACKED_FLUX tables (zeros, dtypes, spacings, "
        "uneven, missing columns/extensions/files) applied once, twice and "
        "in combination to multi-arm forests inside and beyond the table, "
        "with and without continuum, on 1-3 ranks; every pixel against "
        "scipy splines; distinct = (calibrator, options, table size, zeros, "
        "range, ranks)")
ASSUMPTIONS = ["beyond the table the end segment is extrapolated"]
REQUIRED = {"noise_pixels": 3000, "flux_pixels": 3000, "additive_pixels": 2000,
            "node_pixels": 200, "zero_entries": 50, "rejected": 60,
            "masked_pixels": 500, "no_cont_refused": 10, "pipeline": 10,
            "clipped": 5}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return ([{"kind": "noise"}] * (80 * k) + [{"kind": "additive"}] * (60 * k)
            + [{"kind": "flux"}] * (80 * k) + [{"kind": "reject"}] * (24 * k)
            + [{"kind": "pipeline"}] * (20 * k))


def noise_file(path, lam, eta, vlss, extname="VAR_FUNC", drop=None, rng=None):
    c = {"lambda": lam, "var_lss": vlss, "eta": eta,
         "e_eta": eta * 0, "extra": lam * 0}
    if drop:
        c.pop(drop)
    if rng is not None:
        c = {str(k): c[str(k)] for k in rng.permutation(list(c))}
    synth.write_table(path, c, extname=extname)


def flux_file(path, lam, st, extname="STACKED_FLUX", drop=None):
    c = {"lambda": lam, "stacked_flux": st, "e": st * 0}
    if drop:
        c.pop(drop)
    synth.write_table(path, c, extname=extname)


def table(rng, wave, nodes=True, nmin=4):
    """An equally spaced table; some with nodes on pixels."""
    allw = np.concatenate(list(wave.values()))
    dw = allw[1] - allw[0]
    kind = str(rng.choice(["wide", "node", "inside"]))
    n = int(rng.integers(nmin, 30))
    if kind == "node":
        step = float(rng.integers(2, 12)) * dw
        lam = float(rng.choice(allw)) + step * (np.arange(n) - n // 3)
    elif kind == "wide":
        lam = np.linspace(allw.min() - 30, allw.max() + 30, n)
    else:
        span = np.ptp(allw)
        lam = np.linspace(allw.min() + 0.2 * span, allw.max() - 0.2 * span, n)
    return kind, lam


def make(rng):
    arms = ["B", "R", "Z"][:int(rng.integers(1, 4))]
    wave = specs.grids(rng, arms, float(rng.choice([0.8, 1.0, 0.5])))
    n = int(rng.integers(2, 5))
    cat = specs.catalog(rng, n)
    dt = str(rng.choice(["f4", "f8"]))
    data = specs.data_dict(rng, wave, n, dt, reso=rng.random() < 0.4,
                           p_mask=0.1)
    return wave, cat, data, specs.build(cat, data), (
        3e-5 if dt == "f4" else 1e-8)


def spline(lam, y, x):
    return CubicSpline(lam, y, bc_type="not-a-knot", extrapolate=True)(x)


def linear(lam, y, x):
    i = np.clip(((x - lam[0]) / (lam[1] - lam[0])).astype(int), 0,
                lam.size - 2)
    t = (x - lam[i]) / (lam[i + 1] - lam[i])
    return y[i] * (1 - t) + y[i + 1] * t


def give_cont(rng, s, kind="wave"):
    s.cont_params["valid"] = True
    s.cont_params["cont"] = {
        a: 1.5 + 0.5 * np.sin(w / 30 + rng.random())
        for a, w in s.forestwave.items()}


def common(mon, s, before, after, keep, tol, tag):
    specs.same_state(mon, after, before, "others", tag + " touches other "
                     "quantities", skip=tuple(
                         q for q in ("forestflux", "forestivar",
                                     "forestivar_sm", "forestweight")
                         if q not in keep))
    for a in before["forestivar"]:
        m = before["forestivar"][a] == 0
        mon.count("masked_pixels", m.sum())
        mon.check(np.all(after["forestivar"][a][m] == 0), "masked",
                  tag + " unmasked a pixel")


def run_case(case, mon, tmp):
    from qsonic import QsonicException
    from qsonic.calibration import FluxCalibrator, NoiseCalibrator
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    wave, cat, data, sl, tol = make(rng)
    tdt = str(rng.choice(["f8", "f8", ">f4", "f4"]))
    tk, lam = table(rng, wave)
    n = lam.size
    # f4 wavelengths are only evenly spaced to rounding
    ldt = "f8"
    eta = rng.uniform(0.7, 1.4, n).astype(tdt).astype("f8")
    vl = rng.uniform(0.01, 0.3, n).astype(tdt).astype("f8")
    st = rng.uniform(0.7, 1.4, n).astype(tdt).astype("f8")
    nz = 0
    if rng.random() < 0.3:
        # small values are not zero
        w = rng.random(n) < .3
        f = rng.uniform(0.02, 0.3)
        eta[w] *= f
        st[w] *= rng.choice([f, -f])
        eta = eta.astype(tdt).astype("f8")
        st = st.astype(tdt).astype("f8")
    if rng.random() < 0.5:
        z = rng.random(n) < 0.2
        eta[z] = 0
        st[np.roll(z, 1)] = 0
        nz = int(z.sum())
        mon.count("zero_entries", 2 * nz)
    eta1 = np.where(eta == 0, 1, eta)
    st1 = np.where(st == 0, 1, st)
    noise_file("n.fits", lam.astype(ldt), eta.astype(tdt), vl.astype(tdt),
               rng=rng)
    flux_file("f.fits", lam.astype(ldt), st.astype(tdt))

    if kind == "reject":
        nr = int(rng.integers(1, 4))
        unev = lam.copy()
        dl = lam[1] - lam[0]
        how = str(rng.choice(["jump", "node", "last", "first", "shuffle",
                              "log"]))
        if how == "jump":
            unev[n // 2:] += float(rng.choice([0.5, 2.0])) * dl
        elif how == "node":      # the average spacing stays the same
            unev[int(rng.integers(2, n - 1))] += .3 * dl
        elif how == "last":
            unev[-1] += .2 * dl
        elif how == "first":
            unev[0] -= .2 * dl
        elif how == "shuffle":
            unev[2:] = unev[2:][::-1] if n > 3 else unev[2:] + dl
        else:
            unev = np.geomspace(lam[0], 2 * lam[0], n)
        noise_file("n_uneven.fits", unev, eta, vl)
        noise_file("n_ext.fits", lam, eta, vl, extname="OTHER")
        noise_file("n_col.fits", lam, eta, vl, drop="eta")
        noise_file("n_lam.fits", lam, eta, vl, drop="lambda")
        flux_file("f_uneven.fits", unev, st)
        flux_file("f_ext.fits", lam, st, extname="OTHER")
        flux_file("f_col.fits", lam, st, drop="stacked_flux")
        open("x_junk.fits", "w").write("nothing here")
        for cls, pre in ((NoiseCalibrator, "n"), (FluxCalibrator, "f")):
            for f in ("uneven", "ext", "col"):
                f = f"{pre}_{f}.fits"
                mon.count("rejected")
                mon.raises(lambda: cls(f), "reject", f"{f} accepted",
                           types=(QsonicException,))
                mon.state("reject", f)
            for f in ("x_junk.fits", "missing.fits"):
                mon.count("rejected")
                mon.raises(lambda: cls(f), "reject", f"{f} accepted",
                           types=(QsonicException,))
            f = f"{pre}_{rng.choice(['uneven', 'ext', 'col'])}.fits"

            def rank(comm):
                try:
                    cls(f, comm, comm.Get_rank())
                except QsonicException as e:
                    return str(e)
                return None
            r = fakempi.run(nr, rank, seed=case["seed"], delay=0.002)
            mon.check(r.all_ok() and all(v for v in r.values), "reject",
                      f"{f} not rejected on every rank", got=r.describe())
            good = f"{pre}.fits"

            def rank2(comm):
                c = cls(good, comm, comm.Get_rank())
                x = np.linspace(lam[0] - 5, lam[-1] + 5, 40)
                f2 = c.eta_interp if pre == "n" else c.stacked_flux_interp
                return np.asarray(f2(x))
            r = fakempi.run(nr, rank2, seed=case["seed"], delay=0.002)
            if mon.check(r.all_ok(), "reject", "good table rejected",
                         got=r.describe()):
                for v in r.values:
                    mon.equal(v, r.values[0], "ranks",
                              "calibration differs between ranks")
        mon.state("reject", nr, tk)
        mon.seen()
        return

    if kind == "noise":
        no_eta = rng.random() < 0.2
        cal = NoiseCalibrator("n.fits", no_eta=no_eta)
        ntimes = int(rng.integers(1, 3))
        base = [specs.state(s) for s in sl]
        for _ in range(ntimes):
            cal.apply(sl[:-1])
        specs.same_state(mon, specs.state(sl[-1]), base[-1], "others",
                         "spectrum outside the list changed")
        for s, b in zip(sl[:-1], base):
            a = specs.state(s)
            common(mon, s, b, a, ("forestflux",), tol, "noise calibration")
            for arm, w in b["forestwave"].items():
                e = np.ones(w.size) if no_eta else spline(lam, eta1, w)
                ok = e > 0.05      # cubic extrapolation may reach zero
                mon.count("noise_pixels", ok.sum())
                mon.close(a["forestivar"][arm][ok],
                          b["forestivar"][arm][ok] / e[ok]**ntimes, "noise",
                          "ivar / eta", rtol=tol * 10, atol=1e-12,
                          table=tk, no_eta=no_eta)
                if not no_eta:
                    hit = np.isclose(w[:, None], lam[None], rtol=0,
                                     atol=1e-9)
                    pi, ni = np.nonzero(hit)
                    mon.count("node_pixels", pi.size)
                    mon.close(a["forestivar"][arm][pi],
                              b["forestivar"][arm][pi] / eta1[ni]**ntimes,
                              "node", "value at a table node",
                              rtol=tol * 2, atol=1e-12)
        mon.state("noise", tk, min(n, 10), bool(nz), no_eta, ntimes, tdt)
        mon.seen(lam=lam, eta=eta)
        return

    if kind == "additive":
        no_eta = rng.random() < 0.4
        cal = NoiseCalibrator("n.fits", add_varlss=True, no_eta=no_eta)
        k0 = int(rng.integers(len(sl)))
        for j, s in enumerate(sl):
            if j != k0:
                give_cont(rng, s)
        before = [specs.state(s) for s in sl]
        mon.count("no_cont_refused")
        mon.raises(lambda: cal.apply(sl), "refuse", "additive noise without "
                   "continuum accepted")
        for s, b in zip(sl, before):
            specs.same_state(mon, specs.state(s), b, "refuse",
                             "refused calibration changed a spectrum")
        give_cont(rng, sl[k0])
        if rng.random() < 0.4:
            # negative additive variance: i/(eta + i v C^2) may be negative
            cal.varlss_interp = None
            vneg = -np.abs(vl) * 4
            noise_file("n2.fits", lam, eta, vneg)
            cal = NoiseCalibrator("n2.fits", add_varlss=True, no_eta=no_eta)
            v = vneg
        else:
            v = vl
        before = [specs.state(s) for s in sl]
        cal.apply(sl)
        for s, b in zip(sl, before):
            a = specs.state(s)
            common(mon, s, b, a, ("forestflux",), tol, "additive noise")
            for arm, w in b["forestwave"].items():
                e = np.ones(w.size) if no_eta else spline(lam, eta1, w)
                vv = spline(lam, v, w) * b["cont"][arm]**2
                i0 = b["forestivar"][arm].astype("f8")
                den = e + i0 * vv
                exp = np.where(den < 0, 0, i0 / den)
                # close to a pole nothing is judged
                ok = (np.abs(den) > 0.05) & (e > 0.05)
                mon.count("additive_pixels", ok.sum())
                mon.count("clipped", ((den < 0) & ok & (i0 > 0)).sum())
                got = a["forestivar"][arm]
                mon.close(got[ok], exp[ok], "additive",
                          "i/(eta + i varlss C^2)", rtol=tol * 30,
                          atol=1e-9, table=tk, no_eta=no_eta)
                mon.check(np.all(got >= 0), "negative",
                          "negative inverse variance")
        mon.state("additive", tk, min(n, 10), bool(nz), no_eta, v is vl)
        mon.seen(lam=lam, eta=eta, varlss=v)
        return

    if kind == "flux":
        cal = FluxCalibrator("f.fits")
        base = [specs.state(s) for s in sl]
        cal.apply(sl[:-1])
        specs.same_state(mon, specs.state(sl[-1]), base[-1], "others",
                         "spectrum outside the list changed")
        for s, b in zip(sl[:-1], base):
            a = specs.state(s)
            common(mon, s, b, a, (), tol, "flux calibration")
            for arm, w in b["forestwave"].items():
                x = linear(lam, st1, w)
                ok = np.abs(x) > 0.05
                f0 = b["forestflux"][arm].astype("f8")
                i0 = b["forestivar"][arm].astype("f8")
                f1, i1 = a["forestflux"][arm], a["forestivar"][arm]
                mon.count("flux_pixels", ok.sum())
                mon.close(f1[ok], f0[ok] / x[ok], "flux", "f / s",
                          rtol=tol * 10, atol=1e-12, table=tk)
                mon.close(i1[ok], i0[ok] * x[ok]**2, "flux", "i * s^2",
                          rtol=tol * 10, atol=1e-12, table=tk)
                mon.close(np.abs(f1[ok]) * np.sqrt(i1[ok]),
                          np.abs(f0[ok]) * np.sqrt(i0[ok]), "snr",
                          "S/N not preserved", rtol=tol * 10, atol=1e-9)
                pi, ni = np.nonzero(np.isclose(w[:, None], lam[None],
                                               rtol=0, atol=1e-9))
                mon.count("node_pixels", pi.size)
                mon.close(f1[pi], f0[pi] / st1[ni], "node",
                          "value at a table node", rtol=tol * 5, atol=1e-12)
        mon.state("flux", tk, min(n, 10), bool(nz), tdt)
        mon.seen(lam=lam, stack=st)
        return

    # pipeline helper of the fitting program, on several ranks
    from argparse import Namespace
    from qsonic.scripts.qsonic_fit import mpi_noise_flux_calibrate
    use_n, use_f, add = (rng.random(3) < 0.7).tolist()
    args = Namespace(noise_calibration="n.fits" if use_n else None,
                     flux_calibration="f.fits" if use_f else None,
                     varlss_as_additive_noise=add)
    nr = int(rng.integers(1, 4))
    base = [specs.state(s) for s in sl]

    def rank(comm):
        r = comm.Get_rank()
        mine = sl[r::nr]
        try:
            out = mpi_noise_flux_calibrate(mine, args, comm, r)
        except TypeError:
            raise
        return [specs.state(s) for s in mine]
    r = fakempi.run(nr, rank, seed=case["seed"], delay=0.002)
    mon.count("pipeline")
    if not mon.check(r.all_ok(), "pipeline", "calibration step failed",
                     got=r.describe()):
        return
    for rk in range(nr):
        for b, a in zip(base[rk::nr], r.values[rk]):
            for arm, w in b["forestwave"].items():
                e = spline(lam, eta1, w) if use_n else np.ones(w.size)
                x = linear(lam, st1, w) if use_f else np.ones(w.size)
                ok = (e > 0.05) & (np.abs(x) > 0.05)
                mon.close(a["forestflux"][arm][ok],
                          (b["forestflux"][arm] / x)[ok], "pipeline",
                          "calibrated flux", rtol=tol * 10, atol=1e-12,
                          args=args)
                mon.close(a["forestivar"][arm][ok],
                          (b["forestivar"][arm] / e * x**2)[ok], "pipeline",
                          "calibrated ivar", rtol=tol * 10, atol=1e-12,
                          args=args)
    mon.state("pipeline", use_n, use_f, add, nr)
    mon.seen()
