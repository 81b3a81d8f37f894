"""C18: the fitting program end to end."""
import collections
import os

import numpy as np

from qv import e2e, prog, ref, small
from checks.c09 import reference as coadd_ref
from checks.c16 import cubic_ref, lin_ref

RULE = ("the real qsonic-fit program on 1-4 simulated ranks over synthetic "
        "data, mock and tile trees (bad pixels, short, weak, negative, "
        "missing and other-survey quasars; masks, calibrations, fiducials, "
        "all continuum models, coadding modes) with random options; every "
        "catalogue row, delta extension and pixel and attributes extension "
        "against an independent pipeline; distinct = (format, model, coadd, "
        "ranks, calibration, masks, variance options, grouping)")
ASSUMPTIONS = [
    "spectra within 1e-4 of a S/N cut may be kept or cut",
    "the smoothing width of the noise follows either reading of K01 (C16)",
    "runs in which a fitted eta or var_lss is (nearly) zero or negative are "
    "not judged",
    "variance bins, subsamples and minimum counts are scaled down "
    "(constructor defaults only)"]
REQUIRED = {"runs": 20, "sums": 40, "selected": 500, "cut": 120, "extensions": 450,
            "pixels": 40000, "continuum": 40000, "weights": 30000,
            "coadd_after": 3, "invalid": 8, "attr_ext": 60, "rank_pairs": 1,
            "by_hpx": 4, "by_rank": 4, "multi_rank": 6, "true": 1,
            "input": 1, "tile": 1, "mock": 1, "etacal": 1, "norm": 2, "third_iteration": 3,
            "short_after": 1, "one_arm": 3, "arm_masked": 3, "geometry0": 1, "geometry1": 1, "geometry2": 1, "geometry3": 1}


def cases(tier):
    k = 2 if tier == "quick" else 20
    return ([{"kind": "data"}] * (36 * k) + [{"kind": "mock"}] * (10 * k)
            + [{"kind": "tile"}] * (8 * k) + [{"kind": "true"}] * (6 * k)
            + [{"kind": "input"}] * (10 * k) + [{"kind": "ranks"}] * (6 * k)
            + [{"kind": "eta"}] * (8 * k))


def setup_at(mark):
    def setup(comm):
        """Scaled-down variance bins; notes fits that are too close to zero
        for the weights to be defined."""
        cls = small.shrink_varlss()
        fit = cls.fit

        def wrap(self, *a, **kw):
            r = fit(self, *a, **kw)
            y = np.atleast_2d(np.asarray(r[0]).T)
            x = self.waveobs
            grid = np.linspace(e2e.W1 - 5, e2e.W2 + 5, 60)
            if min(cubic_ref(grid, x[0], x[1] - x[0], v, "not-a-knot").min()
                   for v in y) < .01 or y[-1].min() < .1 * (len(y) == 2):
                open(mark, "w").close()
            return r
        cls.fit = wrap
    return setup


def smooths(ivar, o, dw):
    """Candidate smoothed inverse variances (None: undecided)."""
    if o["smooth"] <= 0:
        return [ivar, ivar]
    s = o["smooth"] / dw
    return [ref.smooth_ivar(ivar, s, real_sigma=s / (2 * np.pi)),
            ref.smooth_ivar(ivar, s)]


def func(attr, name, col, wave, kind="cubic"):
    t = attr[name][0]
    x = t["lambda"].astype("f8")
    f = t[col].astype("f8")
    if kind == "stack":         # an empty bin does not normalise
        f[f == 0] = 1
    if kind == "cubic":
        return cubic_ref(wave, x[0], x[1] - x[0], f, "not-a-knot")
    return lin_ref(wave, x[0], x[1] - x[0], f)


def last_iter(attr):
    k = [int(n[5:]) for n in attr if n.startswith("CONT-")
         and n[5:].isdigit()]
    return max(k, default=0)


def judge(mon, w, o, out, files_of, size, wit):
    """Everything the program wrote against the reference."""
    deltas, dup, chi2, attr = out
    exp = w.expected(o)
    tids = [int(t) for t in chi2["TARGETID"]]
    mon.check(len(set(tids)) == len(tids), "once", "quasar twice in the chi2 "
              "catalogue", **wit)
    mon.check(not dup, "once", f"extensions written twice: {dup[:3]}", **wit)
    sure = {t for t, p in exp.items() if p["sure"]}
    mon.count("selected", len(sure))
    mon.count("cut", len(w.q) - len(exp))
    mon.check(sure <= set(tids), "complete", "selected quasar missing from "
              "the chi2 catalogue", n=len(sure - set(tids)),
              first=[(t, w.byid[t]["kind"], w.byid[t]["Z"]) for t in list(
                  sure - set(tids))[:3]], **wit)
    mon.check(set(tids) <= set(exp), "nothing-else", "quasar that should be "
              "cut is in the chi2 catalogue", n=len(set(tids) - set(exp)),
              first=[(t, w.byid[t]["kind"], w.byid[t]["Z"])
                     for t in list(set(tids) - set(exp))[:3] if t in w.byid],
              **wit)
    it = last_iter(attr)
    judge_attr(mon, w, o, attr, it, wit)
    if it == 0:
        return
    judge_sums(mon, w, o, chi2, exp, deltas, attr, it, wit)
    seen = set()
    for row in chi2:
        t = int(row["TARGETID"])
        if t not in exp:
            continue
        judge_row(mon, w, o, row, exp[t], deltas, attr, it, files_of, seen,
                  dict(wit, tid=t, kind=w.byid[t]["kind"]))
    extra = set(deltas) - seen
    mon.check(not extra, "nothing-else", "delta extension of a quasar or arm "
              "that should not be written", n=len(extra),
              first=sorted(extra)[:3], **wit)


def judge_attr(mon, w, o, attr, it, wit):
    names = ["CONT", "STACKED_FLUX", "STACKED_FLUX_RF"]
    want = []
    fitv = not o["fid_vl"]
    for suf in [f"-{k + 1}" for k in range(it)] + [""]:
        want += [n + suf for n in names] + ["VAR_FUNC" + suf] * fitv
    if not fitv:
        want += [n + "-fit" for n in names] + ["VAR_FUNC-fit"]
    want += ["VAR_STATS"]
    mon.count("attr_ext", len(want))
    mon.count("third_iteration", it >= 3)
    mon.check(sorted(attr) == sorted(want), "attributes", "extensions of the "
              "attributes file", missing=sorted(set(want) - set(attr)),
              extra=sorted(set(attr) - set(want)), **wit)
    mon.check(1 <= it <= (1 if o["model"] == "true" else o["niter"]),
              "attributes", "number of iterations", actual=it, **wit)
    nrf = int(round((e2e.R2 - e2e.R1) / 8))
    rf = e2e.R1 + 8 * (.5 + np.arange(nrf))
    for n, (t, _) in attr.items():
        if n.startswith("CONT"):
            mon.close(t["lambda_rf"], rf, "attributes", n + " grid",
                      rtol=1e-9, **wit)
            mon.finite(t["mean_cont"], "attributes", n, **wit)
    if "CONT-1" in attr:
        mon.close(attr["CONT-1"][0]["mean_cont"], np.ones(nrf), "attributes",
                  "the first iteration starts from one", **wit)
    mon.check(bool(np.all(np.diff([attr[f"STACKED_FLUX{s}"][0]["lambda"][0]
                                   for s in ("", "-1")
                                   if f"STACKED_FLUX{s}" in attr]) == 0)),
              "attributes", "stack grid changes", **wit)


def judge_sums(mon, w, o, chi2, exp, deltas, attr, it, wit):
    """Variance statistics and stacked flux are those of the deltas."""
    fitv = not o["fid_vl"]
    if o["coadd"] == "after" or o["additive"] or (
            fitv and (o["norm"] or o["etacal"])) or "VAR_STATS" not in attr:
        return
    D, n = [], collections.Counter(k.split("-")[0] for k in deltas)
    for row in chi2:
        t = int(row["TARGETID"])
        if row["CONT_valid"] and (t not in exp or n[str(t)] != len(
                exp[t]["arms"])):
            mon.count("sums_incomplete")
            return
    for _, h, d in deltas.values():
        v = d["DELTA" if "DELTA" in d.dtype.names else "DELTA_BLIND"]
        x = d["LAMBDA"] if "LAMBDA" in d.dtype.names else 10**d["LOGLAM"]
        D.append(np.array([x, v, d["IVAR"], d["WEIGHT"]], "f8"))
    if not D:
        return
    D = np.concatenate(D, axis=1)
    D = D[:, D[2] > 0]
    t, h = attr["VAR_STATS"]
    h = {k.upper(): v for k, v in h.items() if k}
    x = np.unique(t["wave"])
    dx, m = x[1] - x[0], x.size
    lo, hi = float(h["IVAR1"]), float(h["IVAR2"])
    near = np.minimum(np.abs(D[2] / lo - 1), np.abs(D[2] / hi - 1)) < 1e-4
    inside = (D[2] > lo) & (D[2] <= hi)
    num = t["num_pixels"].astype("f8")
    # a pixel on the edge of a bin belongs to either
    b1, b2 = (np.floor((D[0] - x[0]) / dx + .5 + e).astype(int)
              for e in (1e-6, -1e-6))
    bad = []
    for q, (c, v) in enumerate((
            (num, np.ones(b1.size)), (num * t["mean_delta"], D[1]),
            (num * t["var_pipe"], 1 / D[2]))):
        c = c.reshape(m, -1).sum(1)
        for k in range(m):
            mine = (b1 == k) & (b2 == k) & ~near
            u = v[mine & inside]
            a = np.abs(v[((b1 == k) | (b2 == k)) & ~mine]).sum()
            if abs(c[k] - u.sum()) > a * 1.01 + (
                    1e-4 * np.abs(u).sum() if q else 0):
                bad.append((q, k))
    mon.count("sums", m)
    mon.count("sums_pixels", D.shape[1])
    mon.check(not bad, "sums", "the variance statistics are not those of the "
              "deltas", bins=bad[:5], **wit)
    mon.count("converged", it < o["niter"] and o["model"] != "true")
    if o["norm"] or o["etacal"]:
        return
    t = attr["STACKED_FLUX"][0]
    x, y = t["lambda"].astype("f8"), t["stacked_flux"].astype("f8")
    b1, b2 = (np.floor((D[0] - x[0]) / (x[1] - x[0]) + .5 + e).astype(int)
              for e in (1e-6, -1e-6))
    bad = []
    for k in range(x.size):
        u = (b1 == k) & (b2 == k)
        v, f = D[3][u], 1 + D[1][u]
        g = ((b1 == k) | (b2 == k)) & ~u
        tol = 1e-4 * (1 + np.abs(f).max(initial=0))
        ends = []
        for sign in (1, -1):
            # the least and the largest mean with some of the edge pixels
            r = np.argsort(sign * D[1][g])
            A = (v * f).sum() + np.cumsum(np.r_[0, (D[3] * (1 + D[1]))[g][r]])
            B = v.sum() + np.cumsum(np.r_[0, D[3][g][r]])
            if (B > 0).any():
                ends.append(sign * (sign * (A[B > 0] / B[B > 0])).min())
            if B[0] <= 0:
                ends.append(0.)
        if not min(ends) - tol <= y[k] <= max(ends) + tol:
            bad.append((k, y[k], ends))
    mon.count("sums_stack", x.size)
    mon.check(not bad, "sums", "the stacked flux is not that of the deltas",
              bins=bad[:5], **wit)


def meanflux(w, o, wave):
    if not o["fid_mf"]:
        return np.ones(wave.size)
    lam = w.table_lam(40.)
    return lin_ref(wave, lam[0], 40., w.mf)


def model_cont(w, o, row, q, wave, attr, it):
    """Expected continuum (before stacked-flux normalisation) and scale."""
    if o["model"] == "true":
        w1, dw, c = q["truth"]
        c = cubic_ref(wave, w1, dw, c, "not-a-knot")
        s = np.abs(c)
    elif o["model"] == "input":
        w1, dw, c = w.icont[q["TARGETID"]]
        c = cubic_ref(wave / (1 + q["Z"]), w1, dw, c, "not-a-knot")
        s = np.abs(c)
    else:
        t = attr[f"CONT-{it}"][0]
        x = t["lambda_rf"].astype("f8")
        rf = wave / (1 + q["Z"])
        m = cubic_ref(rf, x[0], x[1] - x[0], t["mean_cont"].astype("f8"),
                      "not-a-knot")
        u = 2 * np.log(rf / x[0]) / np.log(x[-1] / x[0]) - 1
        X = np.atleast_1d(row["CONT_x"]).astype("f8")
        c = m * sum(X[k] * u**k for k in range(X.size))
        s = np.abs(m) * sum(np.abs(X[k] * u**k) for k in range(X.size))
    mf = meanflux(w, o, wave)
    return c * mf, s * mf


def varfuncs(w, o, attr, ext, wave):
    if o["fid_vl"]:
        lam = w.table_lam(40.)
        return lin_ref(wave, lam[0], 40., w.vl), np.ones(wave.size)
    return (func(attr, ext, "var_lss", wave), func(attr, ext, "eta", wave))


def judge_row(mon, w, o, row, p, deltas, attr, it, files_of, seen, wit):
    q = w.byid[int(row["TARGETID"])]
    mon.close(row["Z"], q["Z"], "row", "Z", rtol=1e-6, **wit)
    mon.check(int(row["HPXPIXEL"]) == q["HPXPIXEL"], "row", "HPXPIXEL", **wit)
    mon.close(row["RSNR"], p["rsnr"], "row", "RSNR", rtol=1e-4, atol=1e-5,
              **wit)
    valid = bool(row["CONT_valid"])
    mon.count("invalid", not valid)
    rank = int(row["MPI_RANK"])
    after = o["coadd"] == "after"
    arms = p["arms"]
    snr = dict(p["snr"])
    mon.count("arm_masked", len(snr) > len(arms))
    wvl = np.concatenate([a["wave"] for a in arms.values()])
    if o["model"] == "input":
        c = w.icont.get(q["TARGETID"])
        good = c is not None
        if good:
            cc = cubic_ref(wvl / (1 + q["Z"]), c[0], c[1], c[2], "not-a-knot")
            if np.any(np.abs(cc) < 1e-6):
                good = valid
            else:
                good = bool(np.all(cc > 0))
        mon.check(valid == good, "valid", "validity with input continuum",
                  actual=valid, expected=good, **wit)
    if o["model"] == "true":
        mon.check(valid, "valid", "true continuum invalid", **wit)
    if q["kind"] == "good" and o["model"] == "picca" and p["size"] > 60:
        mon.count("good_fits")
        mon.count("good_valid", valid)
    if not (valid and after):
        a = str(row["ARMS"]).strip().split(",") if not isinstance(
            row["ARMS"], bytes) else row["ARMS"].decode().strip().split(",")
        mon.check(sorted(a) == sorted(snr), "row", "ARMS", actual=a,
                  expected=sorted(snr), **wit)
        if sorted(a) == sorted(snr):
            ms = np.zeros(3)
            ms[:len(a)] = [snr[x] for x in a]
            mon.close(row["MEANSNR"], ms, "row", "MEANSNR", rtol=1e-4,
                      atol=1e-5, **wit)
    dof = p["size"] - (o["order"] + 1 if o["model"] == "picca" else 0)
    mon.check(int(row["CONT_dof"]) == dof, "row", "dof",
              actual=int(row["CONT_dof"]), expected=dof, **wit)
    if not valid:
        mon.check(float(row["CONT_chi2"]) == -1, "row", "chi2 of an invalid "
                  "fit", actual=float(row["CONT_chi2"]), **wit)
        return                       # nothing of it may be written
    got = {}
    tag = f"{q['TARGETID']}-"
    for nm in deltas:
        if nm.startswith(tag):
            got[nm[len(tag):]] = nm
    # what is expected to be written
    cut = int(o["skip"] * (1 + q["Z"]) * (e2e.R2 - e2e.R1) / w.dw) + 1
    if after:
        want = {"brz"}
        n = len(coadd_cover(arms, w.dw))
        if n == cut - 1 or n == cut:
            want = set(x.lower() for x in got) & {"brz"}
        elif n < cut:
            want = set()
            mon.count("short_after")
        names = {"brz": ["brz"]}
    else:
        want = {a for a, v in arms.items() if (v["ivar"] > 0).sum() >= cut
                and snr[a] != 0}
    gotl = {k.lower(): v for k, v in got.items()}
    wl = {a.lower() for a in want}
    mon.check(set(gotl) == wl, "complete", "delta extensions of a valid "
              "quasar", actual=sorted(gotl), expected=sorted(wl), **wit)
    total = 0.0
    complete = len(gotl) == (1 if after else len(arms))
    for a, nm in gotl.items():
        seen.add(nm)
        fn, h, d = deltas[nm]
        src = None if after else next(
            (v for k, v in arms.items() if k.lower() == a), None)
        if not after and src is None:
            continue
        mon.count("extensions")
        fexp = (f"delta-{q['HPXPIXEL']}.fits" if o["hpx"]
                else f"delta-{rank}.fits")
        mon.count("by_hpx" if o["hpx"] else "by_rank")
        mon.check(fn == fexp, "grouping", "extension in the wrong file",
                  actual=fn, expected=fexp, **wit)
        H = {k.upper(): v for k, v in h.items() if k}
        mon.check(int(H["TARGETID"]) == q["TARGETID"], "header", "TARGETID",
                  **wit)
        mon.close(H["Z"], q["Z"], "header", "Z", rtol=1e-6, **wit)
        mon.close([H["RA"], H["DEC"]], np.radians([q["RA"], q["DEC"]]),
                  "header", "position", rtol=1e-9, **wit)
        D = d["DELTA"] if "DELTA" in d.dtype.names else d["DELTA_BLIND"]
        total += judge_ext(mon, w, o, q, p, row, a, d, D, src, attr, it, H,
                           dict(wit, arm=a))
    if complete and o["model"] in ("picca", "true", "input") and not (
            o["norm"] or o["additive"]) and not (o["etacal"] and not after
                                                 and 0):
        mon.close(float(row["CONT_chi2"]), total, "row", "chi2 equals the "
                  "sum over the written pixels", rtol=2e-3, atol=1e-2, **wit)


def coadd_cover(arms, dw):
    w0 = min(v["wave"][0] for v in arms.values())
    return {int(round((x - w0) / dw)) for v in arms.values()
            for x, i in zip(v["wave"], v["ivar"]) if i > 0}


def judge_ext(mon, w, o, q, p, row, a, d, D, src, attr, it, H, wit):
    """One extension; returns its chi2."""
    D = np.asarray(D, "f8")
    C, I, W = (np.asarray(d[k], "f8") for k in ("CONT", "IVAR", "WEIGHT"))
    wave = np.asarray(d["LAMBDA"], "f8")
    after = src is None
    dlat = 1e-2 if o["dla"] and q["TARGETID"] in w.dla else 0.
    ft, itol = 3e-5 + dlat, 6e-5 + 2 * dlat
    stack = func(attr, "STACKED_FLUX", "stacked_flux", wave, "stack") \
        if o["norm"] else np.ones(wave.size)
    etaf = func(attr, "VAR_FUNC", "eta", wave) if (
        o["etacal"] and not o["fid_vl"]) else np.ones(wave.size)
    mon.count("norm", o["norm"])
    mon.count("etacal", o["etacal"])
    mon.finite(np.r_[D, C, I, W], "finite", "delta extension", **wit)

    def covered(x):
        return np.array([round((y - wave[0]) / w.dw) for y in x])

    if not after:
        if not mon.check(src["wave"].size == wave.size and np.allclose(
                src["wave"], wave, rtol=0, atol=1e-6), "pixels",
                "wavelength grid", actual=wave.size,
                expected=src["wave"].size, **wit):
            return 0.
        inside = np.ones(wave.size, bool)
        flux, ivar = src["flux"], src["ivar"]
    else:
        n = int(round((max(v["wave"][-1] for v in p["arms"].values()) - min(
            v["wave"][0] for v in p["arms"].values())) / w.dw)) + 1
        if not mon.check(n == wave.size, "pixels", "wavelength grid",
                         actual=wave.size, expected=n, **wit):
            return 0.
        inside = np.zeros(n, bool)
        for v in p["arms"].values():
            inside[covered(v["wave"])] = True
    # continuum
    c, s = model_cont(w, o, row, q, wave, attr, it)
    mon.count("continuum", int(inside.sum()))
    mon.close((C / stack)[inside], c[inside], "continuum", "CONT is not the "
              "model at the catalogued parameters and saved mean continuum",
              rtol=0, atol=2e-5 * np.maximum(s[inside], 1e-9), **wit) \
        if not o["norm"] or np.all(stack[inside] > 1e-3) else None
    Cw = C / np.where(stack != 0, stack, 1)    # continuum used in the fit
    best = None
    for cand in (0, 1):
        bad = []
        if not after:
            iv = ivar / etaf
            if o["additive"]:
                vl = cubic_ref(wave, 3500., 100., w.vl_cal, "not-a-knot")
                iv = iv / (1 + iv * vl * C**2)
                iv[iv < 0] = 0
                sm = smooths(iv, o, w.dw)[cand]
                vl2, et2 = varfuncs(w, o, attr, "VAR_FUNC", wave)
                if o["etacal"]:
                    et2 = np.ones(wave.size)
                wt = None if sm is None else ref.weight(sm, vl2, et2, C)
            else:
                sm = smooths(ivar, o, w.dw)[cand]
                vl2, et2 = varfuncs(w, o, attr, f"VAR_FUNC-{it}", wave)
                wt = None if sm is None else ref.weight(sm, vl2, et2, Cw)
            fl, good = flux, iv > 0
        else:
            r = coadd_after(w, o, p, C, Cw, wave, attr, it, cand)
            if r is None:
                best = None
                break
            fl, iv, wt = r
            good = iv > 0
        e = {}
        ok = True
        k = good
        rf = (1 + D[k]) * C[k]
        e["flux"] = np.abs(rf - fl[k]) / (np.abs(fl[k]) + C[k])
        e["ivar"] = np.abs(I / C**2 - iv) / np.maximum(iv, 1e-300)
        e["ivar"][iv == 0] = np.where((I[iv == 0] == 0)
                                      & (D[iv == 0] == 0)
                                      & (W[iv == 0] == 0), 0, 1)
        if wt is not None:
            e["weight"] = np.abs(W / C**2 - wt)[k] / np.maximum(
                np.abs(wt[k]), 1e-300)
        lim = {"flux": ft if not after else ft + 2e-4, "ivar": itol if not
               after else itol + 2e-4, "weight": 1e-3 + 2 * dlat}
        bad = {x: float(v.max()) for x, v in e.items() if v.size
               and not v.max() <= lim[x]}
        if best is None or len(bad) < len(best):
            best = bad
            n_w = int(k.sum()) if wt is not None else 0
        if not bad:
            break
    if best is not None:
        mon.count("pixels", wave.size)
        mon.count("weights", n_w)
        mon.count("coadd_after", after)
        for x, v in best.items():
            mon.check(False, x, f"{x} in the delta extension differs from "
                      "the masked, calibrated, coadded input / saved "
                      "variance functions", worst=v,
                      opts={k: o[k] for k in sorted(o)}, **wit)
        if not best:
            mon.check(True, "flux", "")
    if o["reso"]:
        if mon.check("RESOMAT" in d.dtype.names, "reso", "resolution column",
                     **wit) and not after:
            R = next(v for k, v in p["reso"].items() if k.lower() == a)
            mon.close(np.asarray(d["RESOMAT"], "f8").T, R, "reso",
                      "resolution", rtol=1e-4, atol=1e-5, **wit)
    else:
        mon.check("RESOMAT" not in d.dtype.names, "reso", "no resolution",
                  **wit)
    mon.close(H["SMSCALE"], o["smooth"], "header", "SMSCALE", rtol=1e-9,
              **wit)
    if not after:
        mon.close(H["MEANSNR"], next(v for k, v in p["snr"].items()
                                     if k.lower() == a), "header", "MEANSNR",
                  rtol=1e-4, atol=1e-5, **wit)
    return float((W * D**2).sum())


def coadd_after(w, o, p, C, Cw, wave, attr, it, cand):
    """Reference of coadding after the fit; None if undecided."""
    F, I, Wt, L = {}, {}, {}, {}
    for a, v in p["arms"].items():
        k = np.array([round((x - wave[0]) / w.dw) for x in v["wave"]])
        wv = v["wave"]
        et = func(attr, "VAR_FUNC", "eta", wv) if (
            o["etacal"] and not o["fid_vl"]) else np.ones(wv.size)
        iv = v["ivar"] / et
        if o["additive"]:
            vl = cubic_ref(wv, 3500., 100., w.vl_cal, "not-a-knot")
            iv = iv / (1 + iv * vl * C[k]**2)
            iv[iv < 0] = 0
            sm = smooths(iv, o, w.dw)[cand]
            vl2, et2 = varfuncs(w, o, attr, "VAR_FUNC", wv)
            if o["etacal"]:
                et2 = np.ones(wv.size)
            Ck = C[k]
        else:
            sm = smooths(v["ivar"], o, w.dw)[cand]
            vl2, et2 = varfuncs(w, o, attr, f"VAR_FUNC-{it}", wv)
            Ck = Cw[k]
        if sm is None:
            return None
        F[a], I[a], L[a] = v["flux"], iv, wv
        Wt[a] = ref.weight(sm, vl2, et2, Ck)
    r = coadd_ref(L, F, I, Wt, {}, w.dw)
    sm = smooths(r["ivar"], o, w.dw)[cand]
    wt = None
    if sm is not None:
        vl2, et2 = varfuncs(w, o, attr, "VAR_FUNC", wave)
        if o["etacal"]:
            et2 = np.ones(wave.size)
        wt = ref.weight(sm, vl2, et2, C)
    return r["flux"], r["ivar"], wt


def run_fit(mon, w, o, outdir, size, seed, wit):
    """Runs the program; returns outputs or None."""
    a = e2e.argv(w, o, outdir)
    before = e2e.tree_hash(w.root)
    mark = w.root + ".degenerate"
    if os.path.exists(mark):
        os.remove(mark)
    res = prog.run_main("qsonic_fit", a, n=size, seed=seed,
                        setup=setup_at(mark))
    mon.count("runs")
    mon.check(e2e.tree_hash(w.root) == before, "inputs", "an input file was "
              "modified", **wit)
    if os.path.exists(mark) and not o["fid_vl"]:
        mon.count("degenerate")
        return None
    if not res.all_ok():
        kinds = set(res.kinds())
        # a documented refusal (not enough statistics) is no output
        if kinds == {"exit"} and not res.deadlock:
            mon.count("refused")
            n = sum(p["sure"] for p in w.expected(o).values())
            mon.check(n < 45, "refused", f"the program refuses to run with "
                      f"{n} selected quasars", opts=o, **wit)
            return None
        mon.check(False, "run", "the program failed: " + res.describe(),
                  opts=o, **wit)
        return None
    return e2e.read_out(outdir)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    mode = {"true": "mock", "input": str(rng.choice(["data", "mock"])),
            "ranks": "data", "eta": "data"}.get(kind, kind)
    geo = int(rng.choice(4, p=[.55, .15, .15, .15]))
    e2e.set_geometry(geo)
    mon.count(f"geometry{geo}")
    n = int(rng.integers(28, 44))
    if kind == "eta" or rng.random() < .7:
        n = int(rng.integers(70, 90))
    brk = int(rng.choice([4000, 3800, 4200, 4600], p=[.6, .1, .1, .2]))
    two = mode == "data" and rng.random() < .4
    w = e2e.World(rng, f"{tmp}/w", mode=mode, n=n,
                  reso=bool(rng.random() < .4), bal=bool(rng.random() < .4),
                  npix=int(rng.integers(4, 8) if rng.random() < .7
                           else rng.integers(12, 20)),
                  overlap=int(rng.integers(25, 60)) if rng.random() < .3
                  else None, brk=brk,
                  surveys=("main", "sv1") if two else ("main",),
                  nights=[20210101, 20220101] if rng.random() < .4 else None,
                  kindof=None if kind != "ranks" else
                  lambda q, _: "good" if q["kind"] == "weak" else None)
    force = {}
    if two and rng.random() < .7:
        force["surveys"] = ["main", "sv1"]
    if brk == 4600:
        force["arms"] = ["B"]
        mon.count("one_arm")
    else:
        force["arms"] = ["B", "R", "Z"] if rng.random() < .3 else ["B", "R"]
    if kind in ("true", "input"):
        force["model"] = kind
    if kind == "ranks":
        # (whether scipy's line search reports success, and whether a very
        # noisy fit converges, hangs on the last bit of the sums)
        force.update(fid_vl=True, niter=2, mini="iminuit")
    if kind == "eta":
        force.update(eta=True, etacal=True, fid_vl=False, niter=3,
                     coadd=str(rng.choice(["after", "disable"])))
        if rng.random() < .5:
            force.update(noise=True, additive=True)
    o = e2e.options(rng, w, mode, **force)
    if kind == "input":
        o["norm"] = o["norm"] and False
    mon.count(kind)
    if mode != kind:
        mon.count(mode)
    size = int(rng.integers(1, 4))
    mon.count("multi_rank", size > 1)
    wit = dict(mode=mode, size=size)
    out = run_fit(mon, w, o, f"{tmp}/o", size, case["seed"] % 997, wit)
    mon.state(geo, mode, o["model"], o["coadd"], size, o["noise"], o["sky"],
              o["dla"], o["fid_vl"], o["hpx"], o["reso"])
    if out is None:
        return
    judge(mon, w, o, out, None, size, wit)
    if kind != "ranks":
        return
    n2 = size + 1 if size < 3 else 1
    state = rng.bit_generator.state
    w.rng = np.random.default_rng(case["seed"])
    saved = {k: getattr(w, k, None) for k in ("eta_cal", "vl_cal", "st_cal",
                                              "sky_rows", "dla", "mf", "vl")}
    # the same input files again: rebuild them from the same generator state
    a = run_again(mon, w, o, tmp, n2, case, saved, wit)
    if a is None:
        return
    mon.count("rank_pairs")
    compare(mon, out, a, o, dict(wit, size2=n2))


def run_again(mon, w, o, tmp, n2, case, saved, wit):
    av = [x for x in e2e_argv_cached(w, o, f"{tmp}/o2")]
    res = prog.run_main("qsonic_fit", av, n=n2, seed=case["seed"] % 991,
                        setup=setup_at(w.root + ".degenerate"))
    if not mon.check(res.all_ok(), "run", "the program failed: "
                     + res.describe(), **wit):
        return None
    return e2e.read_out(f"{tmp}/o2")


def e2e_argv_cached(w, o, outdir):
    """argv for files already written: no regeneration."""
    keep = {k: getattr(w, k) for k in ("noise", "fluxcal", "sky", "dlas",
                                       "fiducial", "input_cont")}
    for k, f in (("noise", "noise.fits"), ("fluxcal", "flux.fits"),
                 ("sky", "sky.txt"), ("dlas", "dla.fits"),
                 ("fiducial", "fid.fits"), ("input_cont", "icont")):
        setattr(w, k, lambda f=f: f"{w.root}/{f}")
    try:
        return e2e.argv(w, o, outdir)
    finally:
        for k in keep:
            delattr(w, k)


def compare(mon, A, B, o, wit):
    da, _, ca, aa = A
    db, _, cb, ab = B
    mon.check(set(da) == set(db), "rank-invariance", "set of delta "
              "extensions depends on the number of processes", **wit)
    mon.check(sorted(ca["TARGETID"]) == sorted(cb["TARGETID"]),
              "rank-invariance", "chi2 catalogue depends on the number of "
              "processes", **wit)
    for nm in set(da) & set(db):
        x, y = da[nm][2], db[nm][2]
        if not mon.check(x.shape == y.shape, "rank-invariance", "size",
                         **wit):
            continue
        for c in ("LAMBDA", "IVAR", "WEIGHT", "CONT"):
            s = np.abs(x[c]).max()
            mon.close(y[c], x[c], "rank-invariance", f"{c} depends on the "
                      "number of processes", rtol=1e-3, atol=1e-4 * s, **wit)
    for n in aa:
        if n.startswith(("CONT", "STACKED")) and n in ab:
            for c in aa[n][0].dtype.names:
                mon.close(ab[n][0][c], aa[n][0][c], "rank-invariance",
                          f"{n} {c}", rtol=1e-3, atol=1e-4, **wit)
