"""C05: construction, forest limits, S/N and length definitions."""
import numpy as np

from qv.runner import digest
from qv import synth

RULE = ("random spectra lists with NaN/inf/negative/masked pixels, several "
        "arms and dtypes, redshifts and region edges placed exactly on "
        "pixels, arms without usable pixels; construction, region, slicing, "
        "arm removal in random order against a pixel-level reference, plus "
        "digest monitors on the caller's arrays and on the other spectra; "
        "distinct = (dtype, arms kept, edge type, empty arms, operations)")
ASSUMPTIONS = ["unmasked input values are finite or NaN",
               "regularising constants (1e-6, 1e-8) are within tolerance"]
REQUIRED = {"spectra": 500, "regions": 1000, "empty_arms": 100,
            "edge_pixels": 200, "isolation_digests": 500, "bad_pixels": 3000,
            "length_edges": 30, "empty_forest": 30,
            "masked_forests": 100, "smoothed": 50}

LYA = 1215.67


def cases(tier):
    return [{"kind": "spec"}] * (1500 if tier == "quick" else 15000)


def make_data(rng, nspec, dtype, arms, dwave, edges=()):
    wave = {}
    w0 = float(rng.uniform(3500, 3800))
    if dwave in (0.5, 1.0):
        w0 = float(round(w0))
    start = 0
    big = rng.random() < .03        # arms of a real spectrograph
    # units are free: 1e-17 erg/s/cm2/A or anything else
    scale = 10**float(rng.uniform(-3, 4)) if rng.random() < .2 else 1.0
    for a in arms:
        n = int(rng.integers(30, 90) if not big else rng.integers(300, 2800))
        wave[a] = w0 + dwave * (start + np.arange(n))
        start += n - int(rng.integers(-5, 12))
    data = {"wave": wave, "flux": {}, "ivar": {}, "mask": {}, "reso": {}}
    hasreso = rng.random() < 0.5
    two_d = rng.random() < 0.3
    for a in arms:
        n = wave[a].size
        f = np.zeros((nspec, n), dtype)
        i = np.zeros((nspec, n), dtype)
        m = np.zeros((nspec, n), rng.choice(["i4", "u4", "i8"]))
        for k in range(nspec):
            f[k], i[k], m[k] = synth.random_pixels(
                rng, n, p_mask=float(rng.choice([0.02, 0.2])), dtype=dtype)
            f[k] += rng.normal(0, 1)
            f[k] *= scale
            i[k] /= scale**2
            # tiny negative inverse variance, any bit of the mask
            w = rng.random(n) < .03
            i[k][w] = (-10.**rng.uniform(-30, 3, w.sum())).astype(dtype)
            w = rng.random(n) < .03
            m[k][w] = np.array(1).astype(m.dtype) << rng.integers(
                0, 8 * m.dtype.itemsize - 1, w.sum()).astype(m.dtype)
            if m.dtype.kind == "i" and rng.random() < .3:
                m[k][rng.random(n) < .02] = -1
            u = rng.random()
            if u < 0.15:
                i[k] = 0              # no usable pixel at all
            elif u < 0.25:
                m[k] = 4
            # masked pixels may hold anything
            w = m[k] != 0
            junk = rng.choice([np.inf, -np.inf, np.nan, 1e30], w.sum())
            f[k][w] = junk.astype(dtype)
            i[k][w] = rng.permutation(junk).astype(dtype)
        data["flux"][a], data["ivar"][a], data["mask"][a] = f, i, m
        if hasreso:
            nd = int(rng.choice([5, 7]))
            data["reso"][a] = (
                synth.random_reso(rng, nd, n, dtype) if two_d else
                np.array([synth.random_reso(rng, nd, n, dtype)
                          for _ in range(nspec)]))
    return data


def catrows(rng, n):
    c = np.zeros(n, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                           ("DEC", "f8"), ("HPXPIXEL", "i8")])
    c["TARGETID"] = synth.spread_targetids(rng, n)
    c["Z"] = rng.uniform(1.5, 3.0, n)
    c["RA"] = rng.uniform(0, 360, n)
    c["HPXPIXEL"] = 5
    return c


def ref_pixels(data, a, k):
    f = data["flux"][a][k].astype("f8")
    i = data["ivar"][a][k].astype("f8")
    bad = (data["mask"][a][k] != 0) | np.isnan(f) | np.isnan(i) | (i < 0)
    return np.where(bad, 0, f), np.where(bad, 0, i), bad


def snapshot(s):
    return [{a: (np.array(v[a], copy=True)) for a in sorted(v)} for v in (
        s.flux, s.ivar, s.reso, s.forestwave, s.forestflux, s.forestivar,
        s.forestivar_sm, s.forestweight, s.forestreso)] + [
            s.rsnr, dict(s.mean_snr or {}), repr(s.catrow)]


def check_forest(mon, s, ref, tol, **wit):
    """ref: arm -> (wave, flux, ivar, reso or None)."""
    for name, got, j in (("wave", s.forestwave, 0), ("flux", s.forestflux, 1),
                         ("ivar", s.forestivar, 2)):
        if not mon.check(set(got) == set(ref), "forest-arms",
                         f"forest {name} arms", got=sorted(got),
                         want=sorted(ref), **wit):
            return
        for a in ref:
            mon.equal(np.asarray(got[a], "f8"), ref[a][j], "forest",
                      f"forest {name} of arm {a}", **wit)
    for a in ref:
        if ref[a][3] is not None:
            if mon.check(a in s.forestreso, "forest-reso", "missing", arm=a):
                mon.equal(np.asarray(s.forestreso[a], "f8"), ref[a][3],
                          "forest-reso", f"resolution of arm {a}", **wit)
    mon.check(set(s.forestreso) <= set(ref), "forest-reso",
              "resolution of an arm that is not in the forest",
              got=sorted(s.forestreso), want=sorted(ref), **wit)
    nreal = sum(int((r[2] > 0).sum()) for r in ref.values())
    mon.equal(int(s.get_real_size()), nreal, "real-size",
              "number of usable pixels", **wit)


def run_case(case, mon, tmp):
    from qsonic.spectrum import Spectrum
    rng = np.random.default_rng(case["seed"])
    dtype = str(rng.choice(["f4", "f8"]))
    tol = 2e-4 if dtype == "f4" else 2e-5
    arms = [str(x) for x in rng.permutation(["B", "R", "Z"])[
        :int(rng.integers(1, 4))]]
    arms.sort()
    dwave = float(rng.choice([0.8, 1.0, 0.5, 2.4]))
    nspec = int(rng.integers(2, 8))
    data = make_data(rng, nspec, dtype, arms, dwave)
    cat = catrows(rng, nspec)
    wall = np.concatenate([data["wave"][a] for a in arms])
    # redshifts such that the Lya line falls exactly on a pixel
    for k in range(nspec):
        if rng.random() < 0.5:
            a = str(rng.choice(arms))
            j = int(rng.integers(data["wave"][a].size))
            cat["Z"][k] = data["wave"][a][j] / LYA - 1
            if (1 + cat["Z"][k]) * LYA == data["wave"][a][j]:
                mon.count("edge_pixels")
    exact = rng.random(nspec) < 0.3
    cat["Z"][exact] = rng.choice([1.0, 3.0], exact.sum())
    import copy
    original = copy.deepcopy(data)
    cat0 = cat.copy()
    specs = []
    for k in range(nspec):
        if rng.random() < 0.5:
            s = Spectrum.from_dictionary(cat[k], data, k)
        else:
            s = Spectrum(cat[k], data["wave"], data["flux"], data["ivar"],
                         data["mask"], data["reso"], k)
        specs.append(s)
        mon.count("spectra")

    def inputs_untouched(after):
        mon.count("isolation_digests")
        for q in ("wave", "flux", "ivar", "mask", "reso"):
            for a in original[q]:
                mon.equal(data[q][a], original[q][a], "caller-arrays",
                          f"caller's {q}[{a}] changed by {after}")
        mon.check(np.array_equal(cat, cat0), "caller-arrays",
                  "catalogue changed by " + after)

    inputs_untouched("construction")
    for k, s in enumerate(specs):
        rs, rn = 0.0, 0
        for a in arms:
            f, i, bad = ref_pixels(original, a, k)
            mon.count("bad_pixels", bad.sum())
            mon.equal(np.asarray(s.flux[a], "f8"), f, "bad-pixels",
                      f"flux after construction, arm {a}", spec=k)
            mon.equal(np.asarray(s.ivar[a], "f8"), i, "bad-pixels",
                      f"ivar after construction, arm {a}", spec=k)
            w = original["wave"][a] >= (1 + cat["Z"][k]) * LYA
            rs += np.sum(f[w] * np.sqrt(i[w]))
            rn += int((i[w] > 0).sum())
        exp = rs / rn if rn else 0.0
        mon.close(float(s.rsnr), exp, "rsnr", "red-side S/N", rtol=tol,
                  atol=tol, spec=k, npix=rn)
        mon.check(np.isfinite(s.rsnr), "finite", "rsnr not finite", spec=k)

    # ---- forest regions and operations, one spectrum at a time
    for k in rng.permutation(nspec):
        s = specs[k]
        others = [(j, snapshot(specs[j])) for j in range(nspec) if j != k]
        z = float(cat["Z"][k])
        nreg = int(rng.integers(1, 4))
        ref, masked = None, False
        for _ in range(nreg):
            lo, hi = wall.min(), wall.max()
            w1, w2 = sorted(rng.uniform(lo - 20, hi + 20, 2))
            r1, r2 = sorted(rng.uniform((lo - 30) / (1 + z),
                                        (hi + 30) / (1 + z), 2))
            edge = str(rng.choice(["none", "obs", "rf", "outside", "wide"],
                                  p=[.3, .25, .25, .1, .1]))
            if edge == "obs":
                w1, w2 = sorted(rng.choice(wall, 2))
                mon.count("edge_pixels", 2)
            elif edge == "rf":
                p = sorted(rng.choice(wall, 2))
                r1, r2 = p[0] / (1 + z), p[1] / (1 + z)
            elif edge == "outside":
                w1, w2 = hi + 100, hi + 200
            elif edge == "wide":
                w1, w2, r1, r2 = lo - 1, hi + 1, 1.0, 1e5
            l1, l2 = max(w1, (1 + z) * r1), min(w2, (1 + z) * r2)
            s.set_forest_region(w1, w2, r1, r2)
            mon.count("regions")
            ref = {}
            for a in arms:
                f, i, bad = ref_pixels(original, a, k)
                wv = original["wave"][a]
                sel = (wv >= l1) & (wv < l2)
                if not (i[sel] > 0).any():
                    mon.count("empty_arms")
                    continue
                rr = None
                if original["reso"]:
                    rr = original["reso"][a]
                    rr = (rr if rr.ndim == 2 else rr[k]).astype("f8")[:, sel]
                ref[a] = (wv[sel], f[sel], i[sel], rr)
            wit = dict(spec=int(k), edge=edge, z=z, region=(w1, w2, r1, r2))
            check_forest(mon, s, ref, tol, **wit)
            if not ref:
                mon.count("empty_forest")
            snr = {}
            for a in ref:
                w, f, i, _ = ref[a]
                snr[a] = float(np.sum(np.sqrt(i) * f) / (i > 0).sum())
                if mon.check(a in s.mean_snr, "snr", "arm S/N missing",
                             arm=a, **wit):
                    mon.close(float(s.mean_snr[a]), snr[a], "snr",
                              f"mean S/N of arm {a}", rtol=tol, atol=tol,
                              **wit)
            mon.check(set(s.mean_snr) == set(ref), "snr", "S/N arms",
                      got=sorted(s.mean_snr), **wit)
            den = sum(v**2 for v in snr.values())
            eff = sum(v**3 for v in snr.values()) / den if den else 0.0
            if all(abs(v) > 1e-2 for v in snr.values()):
                mon.close(float(s.get_effective_meansnr()), eff, "snr-eff",
                          "effective S/N", rtol=10 * tol, atol=tol, **wit)
            mon.check(np.isfinite(s.get_effective_meansnr()), "finite",
                      "effective S/N not finite", **wit)
            mon.check(all(np.isfinite(v) for v in s.mean_snr.values()),
                      "finite", "mean S/N not finite", **wit)
            mon.finite(s.cont_params["x"], "finite", "initial amplitude")
            # length cut, including exact equality
            nreal = sum(int((r[2] > 0).sum()) for r in ref.values())
            for _ in range(2):
                df = float(rng.uniform(1, 200))
                sk = float(rng.uniform(0, 1))
                x = sk * (1 + z) * df / dwave
                if abs(x - nreal) > 1e-6 * (1 + x):
                    mon.equal(bool(s.is_long(df, sk)), nreal > x, "length",
                              "length cut", nreal=nreal, limit=x, **wit)
            if dwave in (0.5, 1.0) and z in (1.0, 3.0) and nreal:
                mon.count("length_edges")
                mon.equal(bool(s.is_long(nreal * dwave / (1 + z), 1.0)),
                          False, "length", "length cut at equality", **wit)
            mon.equal(bool(s.is_long(0.0, 0.5)), nreal > 0, "length",
                      "length cut at equality (0 pixels needed)", **wit)
            mon.state(dtype, len(arms), edge, len(ref), bool(original["reso"]))
            if ref and rng.random() < .4:
                # what a mask does to the forest stays in the forest: the
                # next region starts from the spectrum as constructed
                keep = ref
                ref = {}
                for a, (w, f, i, r) in keep.items():
                    b = rng.random(w.size) < .2
                    s.forestflux[a][b] = 0
                    s.forestivar[a][b] = 0
                    f, i = f.copy(), i.copy()
                    f[b], i[b] = 0, 0
                    ref[a] = (w, f, i, r)
                    g = ref_pixels(original, a, k)
                    mon.equal(np.asarray(s.flux[a], "f8"), g[0],
                              "spectrum-kept", "flux of the whole spectrum "
                              "after masking its forest", **wit)
                    mon.equal(np.asarray(s.ivar[a], "f8"), g[1],
                              "spectrum-kept", "ivar of the whole spectrum "
                              "after masking its forest", **wit)
                mon.count("masked_forests")
                masked = True
            else:
                masked = False
        inputs_untouched("set_forest_region")
        # ---- random operation sequence
        ops = []
        for _ in range(int(rng.integers(0, 5))):
            op = str(rng.choice(["slice", "drop", "short", "short0",
                                 "remove", "smooth"]))
            ops.append(op)
            if op == "smooth" and all((v[2] > 0).any()
                                      for v in ref.values()):
                s.set_smooth_forestivar(float(rng.choice([2., 16.])))
                masked = True       # the weights are the smoothed ones
                mon.count("smoothed")
            if op == "slice" and ref:
                a = str(rng.choice(sorted(ref)))
                n = ref[a][0].size
                i1 = int(rng.integers(0, n + 1))
                i2 = int(rng.integers(i1, n + 1))
                if rng.random() < 0.2:
                    i1, i2 = 0, n
                s.slice(a, i1, i2)
                w, f, i, r = ref[a]
                ref[a] = (w[i1:i2], f[i1:i2], i[i1:i2],
                          None if r is None else r[:, i1:i2])
                for q in (s.forestivar_sm, s.forestweight) * (not masked):
                    mon.equal(np.asarray(q[a], "f8"), ref[a][2], "slice",
                              "weights follow the slice", arm=a)
            elif op == "drop" and ref:
                a = str(rng.choice(sorted(ref)))
                s.drop_arm(a)
                ref.pop(a)
            elif op == "short" and ref:
                sk = float(rng.uniform(0, 1))
                l1 = float(rng.uniform(1000, 1100))
                l2 = l1 + float(rng.uniform(1, 120 * dwave / (1 + z)))
                x = sk * (1 + z) * (l2 - l1) / dwave
                if dwave in (0.5, 1.0) and z in (1.0, 3.0):
                    # every operation below is exact in any order
                    # exact equality of the number of pixels
                    a = str(rng.choice(sorted(ref)))
                    n = int((ref[a][2] > 0).sum())
                    l1 = 0.0
                    l2 = n * s.dwave / (1 + z)
                    sk = 1.0
                    x = sk * ((1 + z) * (l2 - l1) / s.dwave)
                    if x != n:
                        continue
                    mon.count("length_edges")
                elif abs(x - round(x)) < 1e-6:
                    continue
                s.drop_short_arms(l1, l2, sk)
                ref = {a: v for a, v in ref.items() if (v[2] > 0).sum() > x}
            elif op == "short0":
                s.drop_short_arms()
                ref = {a: v for a, v in ref.items() if (v[2] > 0).any()}
            elif op == "remove":
                s.remove_nonforest_pixels()
                mon.check(not s.flux and not s.ivar and not s.reso, "remove",
                          "non-forest pixels must be released")
            check_forest(mon, s, ref, tol, ops=ops)
            mon.state("ops", op, len(ref))
        inputs_untouched("operations")
        for j, snap in others:
            mon.count("isolation_digests")
            mon.equal(digest(snapshot(specs[j])), digest(snap), "isolation",
                      f"spectrum {j} changed while processing {k}", ops=ops)
    # ---- the arrays of a spectrum are its own
    k = int(rng.integers(0, nspec))
    s = specs[k]
    others = [(j, snapshot(specs[j])) for j in range(nspec) if j != k]
    for q in (s.flux, s.ivar, s.reso, s.forestwave, s.forestflux,
              s.forestivar, s.forestreso):
        for a in q:
            q[a][...] = -77
    inputs_untouched("writing to a spectrum")
    for j, snap in others:
        mon.count("isolation_digests")
        mon.equal(digest(snapshot(specs[j])), digest(snap), "isolation",
                  f"spectrum {j} changed while writing to {k}")
    mon.seen(nspec=nspec, dtype=dtype, arms=arms)
