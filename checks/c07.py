"""C07: DLA masking."""
import fitsio
import numpy as np
from scipy.special import wofz

from qv import specs, synth

RULE = ("random DLA catalogues (any row order, several DLAs per sightline, "
        "other sightlines, Z or Z_DLA column, extra columns, dtypes, local "
        "target lists) applied to multi-arm forests including red side "
        "pixels; every pixel against a Voigt (Faddeeva) reference, exact "
        "flux/ivar scaling, untouched sightlines by digest; plus profile "
        "scans around the line centres; distinct = (column name, DLAs, "
        "limit, arms, masked fraction class)")
ASSUMPTIONS = ["pixels whose reference transmission is within 1% of the "
               "mask limit are not judged",
               "Tepper-Garcia approximation: 1e-2 agreement of transmission"]
REQUIRED = {"dla_sightlines": 150, "multi_dla": 60, "masked_pixels": 500,
            "corrected_pixels": 2000, "red_pixels": 1000, "untouched": 100,
            "profile_points": 20000, "order_variants": 40, "near_center": 500,
            "same_redshift": 20, "strong": 10}
CL = 2.99792458e10


def cases(tier):
    k = 4 if tier == "quick" else 40
    return ([{"kind": "apply"}] * (120 * k) + [{"kind": "profile"}] * (30 * k)
            + [{"kind": "columns"}] * (6 * k))


def voigt_tau(wave, z, nhi, b=10.0):
    tau = np.zeros(wave.size)
    for lam, f, A in ((1215.67, 0.41641, 6.2648e8),
                      (1025.7220, 0.079142, 1.6725e8)):
        x = wave / (1 + z) / lam - 1
        s = b / 299792.458
        g = A * lam * 1e-8 / (4 * np.pi * CL)
        # pi e^2/(m_e c) = 0.0265401 cm^2/s
        t = 0.0265401 * f * 10**(nhi - 13) * lam / b / np.sqrt(np.pi)
        tau += t * wofz(x / s + 1j * g / s).real
    return tau


def write_dla(path, rows, zcol, rng, extra):
    """rows: list of (tid, z, nhi)."""
    a = {"TARGETID": np.array([r[0] for r in rows], "i8"),
         zcol: np.array([r[1] for r in rows],
                        str(rng.choice(["f8", "f8", "f4"]))),
         "NHI": np.array([r[2] for r in rows],
                         str(rng.choice(["f8", "f8", "f4"])))}
    if zcol == "Z_DLA" and rng.random() < .3:
        # redshift of the quasar; Z_DLA is the name that is looked up first
        a["Z"] = a[zcol] + .05 + rng.uniform(0, .3, len(rows))
    if extra:
        a["DLAID"] = np.arange(len(rows))
        a["SNR"] = rng.uniform(0, 9, len(rows))
    names = list(rng.permutation(list(a)))
    synth.write_table(path, {str(n): a[str(n)] for n in names},
                      extname="DLACAT")
    return a[zcol].astype("f8"), a["NHI"].astype("f8")


def run_case(case, mon, tmp):
    from qsonic import QsonicException
    from qsonic.masks import DLAMask
    rng = np.random.default_rng(case["seed"])

    if case["kind"] == "profile":
        for _ in range(20):
            z = float(rng.uniform(1.8, 3.5))
            nhi = float(rng.uniform(17, 23.2))
            lam = float(rng.choice([1215.67, 1025.722]))
            c = lam * (1 + z)
            near = c * (1 + rng.choice([-1, 1], 60)
                        * 10.0**rng.uniform(-15, -3, 60))
            wave = np.sort(np.concatenate(
                [np.linspace(3500, 6500, 500), near, [c]]))
            F = DLAMask.get_dla_flux(wave, z, nhi)
            mon.count("profile_points", wave.size)
            mon.count("near_center", 61)
            mon.finite(F, "range", "transmission not finite", z=z, nhi=nhi)
            with np.errstate(invalid="ignore"):
                mon.check(np.all((F >= 0) & (F <= 1)), "range",
                          "transmission outside [0, 1]", z=z, nhi=nhi,
                          bad=wave[~((F >= 0) & (F <= 1))])
            ref = np.exp(-voigt_tau(wave, z, nhi))
            mon.close(F, ref, "voigt", "transmission vs Voigt profile",
                      atol=1e-3 if nhi > 20 else 2.5e-2, rtol=0, z=z,
                      nhi=nhi)
            F2 = DLAMask.get_dla_flux(wave, z, nhi + float(
                rng.uniform(0.01, 1)))
            mon.check(np.all(F2 <= F + 1e-12), "monotonic",
                      "transmission increases with column density",
                      z=z, nhi=nhi)
            # product of the DLAs of a sightline
            d = np.zeros(3, dtype=[("TARGETID", "i8"), ("Z_DLA", "f8"),
                                   ("NHI", "f8")])
            d["Z_DLA"] = rng.uniform(1.8, 3.5, 3)
            d["NHI"] = rng.uniform(18, 22, 3)
            T = DLAMask.get_all_dlas(wave, d)
            ref = np.exp(-sum(voigt_tau(wave, r["Z_DLA"], r["NHI"])
                              for r in d))
            mon.close(T, ref, "voigt", "combined transmission", atol=3e-2,
                      rtol=0)
            mon.state("profile", int(nhi), lam)
        mon.seen(z=z, nhi=nhi)
        return

    arms = ["B", "R", "Z"][:int(rng.integers(1, 4))]
    wave = specs.grids(rng, arms, float(rng.choice([0.8, 2.0, 5.0])),
                       nlo=80, nhi=160)
    wall = np.concatenate(list(wave.values()))
    n = int(rng.integers(3, 7))
    cat = specs.catalog(rng, n)
    # put Lya of the quasar inside the grid for most
    cat["Z"] = rng.uniform(wall.min(), wall.max() * 1.05, n) / 1215.67 - 1
    data = specs.data_dict(rng, wave, n, str(rng.choice(["f4", "f8"])),
                           reso=rng.random() < 0.3)
    rows = []
    has = rng.random(n) < 0.6
    has[0] = True
    for k in range(n):
        if not has[k]:
            continue
        for _ in range(int(rng.choice([1, 2, 3, 5, 9, 20], p=[
                .3, .25, .2, .15, .07, .03]))):
            wz = rng.uniform(wall.min() - 100, wall.max() + 100)
            line = rng.choice([1215.67, 1025.722])
            rows.append((int(cat["TARGETID"][k]), float(wz / line - 1),
                         float(rng.uniform(18.5, 22.3)) if rng.random() < .9
                         else float(rng.uniform(22.3, 23.2))))
            mon.count("strong", rows[-1][2] > 22.5)
            if rng.random() < .12:
                # two absorbers at one redshift
                rows.append(rows[-1][:2] + (float(rng.uniform(18.5, 22.3)),))
                mon.count("same_redshift")
    for t in synth.spread_targetids(rng, int(rng.integers(
            0, 10)) if rng.random() < .9 else 400):
        if t in cat["TARGETID"]:
            continue
        rows.append((int(t), float(rng.uniform(2, 3)),
                     float(rng.uniform(20, 22))))
    rows = [rows[i] for i in rng.permutation(len(rows))]
    zcol = str(rng.choice(["Z", "Z_DLA"]))
    zz, nn = write_dla("dla.fits", rows, zcol, rng, rng.random() < 0.4)
    rows = [(r[0], a, b) for r, a, b in zip(rows, zz, nn)]

    if case["kind"] == "columns":
        bad = {"TARGETID": np.array([1, 2]), "ZDLA": np.array([2., 2.]),
               "NHI": np.array([20., 20.])}
        synth.write_table("bad.fits", bad, extname="DLACAT")
        synth.write_table("badext.fits", {**bad, "Z": bad["ZDLA"]},
                          extname="CAT")
        open("junk.fits", "w").write("not a FITS file")
        for f in ("bad.fits", "badext.fits", "junk.fits", "missing.fits"):
            mon.raises(lambda: DLAMask(f), "refuse", f"{f} accepted",
                       types=(QsonicException,))
            mon.state("refuse", f)
        mon.seen()
        return

    limit = float(rng.choice([0.8, 0.8, 0.5, 0.95, 0.2]))
    local = str(rng.choice(["none", "all", "half"]))
    half = cat["TARGETID"][:max(1, n // 2)]
    lt = {"none": None, "all": cat["TARGETID"], "half": half}[local]
    if lt is not None and rng.random() < 0.5:
        lt = rng.permutation(lt)
    mask = DLAMask("dla.fits", local_targetids=lt, dla_mask_limit=limit)
    sl = specs.build(cat, data)
    use = range(n) if local != "half" else range(len(half))
    results = {}
    for k in use:
        s = sl[k]
        before = specs.state(s)
        others = {j: specs.state(sl[j]) for j in range(n) if j != k}
        mask.apply(s)
        after = specs.state(s)
        results[k] = after
        for j, st in others.items():
            specs.same_state(mon, specs.state(sl[j]), st, "others",
                             "another spectrum changed")
        dl = [(z, h) for t, z, h in rows if t == cat["TARGETID"][k]]
        if not dl:
            mon.count("untouched")
            specs.same_state(mon, after, before, "others",
                             "sightline without DLA changed",
                             tid=int(cat["TARGETID"][k]))
            continue
        mon.count("dla_sightlines")
        mon.count("multi_dla", len(dl) > 1)
        specs.same_state(mon, after, before, "others",
                         "only flux and ivar may change",
                         skip=("forestflux", "forestivar", "forestivar_sm",
                               "forestweight"))
        nm = 0
        for a, w in before["forestwave"].items():
            tau = sum(voigt_tau(w, z, h) for z, h in dl)
            T = np.exp(-tau)
            edge = (1 + float(cat["Z"][k])) * 1215.67
            red = w >= edge
            amb = np.abs(w / edge - 1) < 1e-9
            f0, i0 = before["forestflux"][a], before["forestivar"][a]
            f1, i1 = after["forestflux"][a], after["forestivar"][a]
            wit = dict(arm=a, limit=limit, dlas=dl, z=float(cat["Z"][k]))
            m = red & ~amb
            mon.count("red_pixels", m.sum())
            mon.check(np.array_equal(f1[m], f0[m])
                      and np.array_equal(i1[m], i0[m]), "red",
                      "pixels redward of Lya changed", **wit)
            m = ~red & ~amb & (T < limit - 0.01)
            nm += m.sum()
            mon.count("masked_pixels", m.sum())
            mon.check(np.all(f1[m] == 0) and np.all(i1[m] == 0), "masked",
                      "saturated pixel not masked", wave=w[m][
                          (f1[m] != 0) | (i1[m] != 0)], **wit)
            m = ~red & ~amb & (T > limit + 0.01)
            mon.count("corrected_pixels", m.sum())
            mon.check(np.array_equal(f1[m] == 0, f0[m] == 0)
                      and np.array_equal(i1[m] == 0, i0[m] == 0), "wing",
                      "wing pixels masked or unmasked", **wit)
            g = m & (f0 != 0) & (f1 != 0)
            mon.close(f0[g] / f1[g], T[g], "wing", "flux in the wings",
                      rtol=0, atol=2e-2, **wit)
            g = m & (i0 > 0)
            mon.close(np.sqrt(i1[g] / i0[g]), T[g], "wing",
                      "ivar in the wings", rtol=0, atol=2e-2, **wit)
            # exact consistency: flux*sqrt(ivar) conserved
            mon.close(f1[m] * np.sqrt(i1[m]), f0[m] * np.sqrt(i0[m]), "snr",
                      "flux and ivar scaled inconsistently", rtol=1e-5,
                      atol=1e-6, **wit)
            g = m & (T > 0.999)
            mon.close(f1[g], f0[g] / T[g], "wing", "flux in the far wings",
                      rtol=2e-4, atol=1e-6, **wit)
        mon.state("apply", zcol, min(len(dl), 4), limit, len(arms), local,
                  int(np.log2(nm + 1)))

    # catalogue row order, column name and local list do not matter
    rows2 = [rows[i] for i in rng.permutation(len(rows))]
    # (writes f8 so that values are the ones used above)
    synth.write_table("dla2.fits", {
        "TARGETID": np.array([r[0] for r in rows2], "i8"),
        "NHI": np.array([r[2] for r in rows2]),
        ("Z" if zcol == "Z_DLA" else "Z_DLA"):
            np.array([r[1] for r in rows2])}, extname="DLACAT")
    mask2 = DLAMask("dla2.fits", local_targetids=cat["TARGETID"],
                    dla_mask_limit=limit)
    sl2 = specs.build(cat, data)
    for k in use:
        mask2.apply(sl2[k])
        mon.count("order_variants")
        a, b = specs.state(sl2[k]), results[k]
        for q in ("forestflux", "forestivar"):
            for arm in a[q]:
                bad = ~np.isclose(a[q][arm], b[q][arm], rtol=1e-4, atol=1e-6)
                # one pixel at the threshold may flip with rounding
                mon.check(bad.sum() <= 1, "order", f"{q} depends on row "
                          "order, column name or local list", bad=bad.sum())
    mon.seen(rows=rows[:3])
