"""C22: exposures read after or before the continuum fit."""
import os

import numpy as np

from qv import e2e, prog
from checks import c18

RULE = ("the real qsonic-fit program with --exposures after/before on 1-3 "
        "simulated ranks over trees with coadded and 1-3 single-exposure "
        "spectra per quasar (own noise, masks, bad pixels, arms missing in "
        "the coadd or in an exposure, two surveys sharing a HEALPix, files in "
        "any order) with random masks, calibrations and coadding; every "
        "expected exposure extension is looked up and its data, continuum, "
        "identifiers and file compared; distinct = (mode, coadd, arms, "
        "ranks, surveys, masks, calibration, grouping)")
ASSUMPTIONS = ["spectra within 1e-4 of a cut may be kept or cut",
               "WEIGHT of exposures read after the fit is only required to "
               "be finite and to vanish where IVAR does"]
REQUIRED = {"runs": 25, "after": 15, "before": 6, "extensions": 400,
            "pixels": 15000, "exposures": 300, "multi_exp": 80,
            "two_surveys": 4, "arm_only_in_exposure": 4,
            "arm_only_in_coadd": 4, "multi_rank": 8, "empty_rank": 1,
            "cut": 10, "continuum": 15000, "disable": 4, "brz": 6}


def cases(tier):
    k = 2 if tier == "quick" else 20
    return ([{"kind": "after"}] * (44 * k) + [{"kind": "before"}] * (20 * k)
            + [{"kind": "lonely"}] * (6 * k))


def coadded(o):
    return dict(o, coadd=o["coadd"] if o["coadd"] == "disable" else "before")


def expect_after(w, o, q, p, d):
    """arm -> (first pixel kept, prepared arm, snr), sure."""
    pe = w.prepare(q, d, coadded(o))
    if pe is None:
        return {}, {}, True, None
    cut = int(o["skip"] * (1 + q["Z"]) * (e2e.R2 - e2e.R1) / w.dw) + 1
    if o["coadd"] == "after":
        ca = {"brz": (min(v["wave"][0] for v in p["arms"].values()),
                      max(v["wave"][-1] for v in p["arms"].values()))}
    else:
        ca = {a: (v["wave"][0], v["wave"][-1]) for a, v in p["arms"].items()}
    out, maybe = {}, {}
    for a, v in pe["arms"].items():
        if a not in ca:
            continue
        k = (v["wave"] > ca[a][0] - .2) & (v["wave"] < ca[a][1] + .2)
        n = (v["ivar"][k] > 0).sum()
        if n < cut or pe["snr"][a] == 0:
            continue
        out[a] = dict({x: v[x][k] for x in ("wave", "flux", "ivar")},
                      snr=pe["snr"][a], n=n, reso=pe["reso"][a][:, k]
                      if a in pe["reso"] else None)
    return out, ca, pe["sure"], pe


def judge_after(mon, w, o, out, wit):
    deltas, dup, chi2, attr = out
    exp = w.expected(o)
    mon.check(not dup, "once", "extensions written twice", first=dup[:3],
              **wit)
    it = c18.last_iter(attr)
    tids = [int(t) for t in chi2["TARGETID"]]
    sure = {t for t, p in exp.items() if p["sure"]}
    mon.check(sure <= set(tids) <= set(exp) and len(set(tids)) == len(tids),
              "catalogue", "quasars in the chi2 catalogue", **wit)
    seen = set()
    for row in chi2:
        t = int(row["TARGETID"])
        if t not in exp or not row["CONT_valid"]:
            continue
        q, p = w.byid[t], exp[t]
        ds = w.exps.get(t, [])
        mon.count("multi_exp", len(ds) > 1)
        for d in ds:
            want, ca, ok, pe = expect_after(w, o, q, p, d)
            mon.count("exposures")
            if pe is None:
                mon.count("cut")
            else:
                mon.count("arm_only_in_exposure",
                          len(set(pe["arms"]) - set(p["arms"])))
                mon.count("arm_only_in_coadd",
                          len(set(p["arms"]) - set(pe["arms"])))
            got = {}
            for nm in deltas:
                x = nm.split("-")
                if x[0] == str(t) and x[-1] == str(d["EXPID"]):
                    got[x[1].lower()] = nm
            if ok:
                mon.check(set(got) == {a.lower() for a in want}, "complete",
                          "extensions of an exposure", actual=sorted(got),
                          expected=sorted(want), tid=t, nexp=len(ds), **wit)
            for a, nm in got.items():
                seen.add(nm)
                v = next((v for k, v in want.items() if k.lower() == a),
                         None)
                if v is not None:
                    judge_ext(mon, w, o, q, p, d, pe, row, v, deltas[nm],
                              attr, it, dict(wit, ext=nm))
    extra = set(deltas) - seen
    mon.check(not extra, "nothing-else", "extension that is no exposure of a "
              "quasar with a valid fit", first=sorted(extra)[:3],
              n=len(extra), **wit)


def headers(mon, w, o, q, d, H, fn, row, wit):
    rank = int(row["MPI_RANK"])
    fexp = f"delta-{q['HPXPIXEL'] if o['hpx'] else rank}.fits"
    mon.check(fn == fexp, "grouping", "extension in the wrong file",
              actual=fn, expected=fexp, **wit)
    for k in ("EXPID", "NIGHT", "FIBER", "PETAL_LOC", "TILEID", "TARGETID"):
        mon.check(int(H[k]) == int(d[k]), "identifiers", f"header {k}",
                  actual=H[k], expected=d[k], **wit)
    mon.close([H["RA"], H["DEC"], H["Z"]],
              [np.radians(q["RA"]), np.radians(q["DEC"]), q["Z"]],
              "identifiers", "position", rtol=1e-6, **wit)


def judge_ext(mon, w, o, q, p, d, pe, row, v, ext, attr, it, wit):
    fn, h, t = ext
    H = {k.upper(): x for k, x in h.items() if k}
    mon.count("extensions")
    mon.count("brz" if o["coadd"] != "disable" else "disable")
    headers(mon, w, o, q, d, H, fn, row, wit)
    mon.close([H["MEANSNR"], H["RSNR"]], [v["snr"], pe["rsnr"]], "snr",
              "S/N of the exposure", rtol=1e-4, atol=1e-5, **wit)
    D = t["DELTA"] if "DELTA" in t.dtype.names else t["DELTA_BLIND"]
    D = np.asarray(D, "f8")
    C, I, W, L = (np.asarray(t[k], "f8") for k in ("CONT", "IVAR", "WEIGHT",
                                                   "LAMBDA"))
    if not mon.check(L.size == v["wave"].size and np.allclose(
            L, v["wave"], rtol=0, atol=1e-6), "pixels", "wavelength grid",
            actual=L.size, expected=v["wave"].size, **wit):
        return
    mon.finite(np.r_[D, C, I, W], "finite", "exposure extension", **wit)
    mon.count("pixels", L.size)
    stack = c18.func(attr, "STACKED_FLUX", "stacked_flux", L, "stack") \
        if o["norm"] else np.ones(L.size)
    c, s = c18.model_cont(w, o, row, q, L, attr, it)
    good = v["ivar"] > 0
    # pixels that the coadd covers
    cov = np.zeros(L.size, bool)
    for a in p["arms"].values():
        cov |= (L > a["wave"][0] - .2) & (L < a["wave"][-1] + .2)
    cov &= good
    mon.count("continuum", int(cov.sum()))
    mon.close(C[cov], (c * stack)[cov], "continuum", "CONT of the exposure "
              "is not the continuum of the coadd", rtol=0,
              atol=2e-5 * np.maximum((s * np.abs(stack))[cov], 1e-9), **wit)
    dlat = 1e-2 if o["dla"] and q["TARGETID"] in w.dla else 0.
    f = (1 + D) * C
    mon.close(f[good], v["flux"][good], "flux", "flux of the exposure",
              rtol=1e-4 + dlat, atol=(1e-4 + dlat) * np.abs(C[good]), **wit)
    mon.close(I / C**2, v["ivar"], "ivar", "ivar of the exposure",
              rtol=2e-4 + 2 * dlat, **wit)
    mon.check(bool(np.all((W == 0) == (v["ivar"] == 0))), "weight",
              "weight and masked pixels", **wit)
    mon.check(bool(np.all(D[~good] == 0)), "masked", "delta of a masked "
              "pixel", **wit)
    if o["reso"] and mon.check("RESOMAT" in t.dtype.names, "reso",
                               "resolution", **wit):
        mon.close(np.asarray(t["RESOMAT"], "f8").T, v["reso"], "reso",
                  "resolution", rtol=1e-4, atol=1e-5, **wit)


def same(o, r, p):
    """Row r belongs to the exposure p (the catalogue has no EXPID)."""
    dof = p["size"] - (o["order"] + 1)
    return int(r["CONT_dof"]) == dof and (
        o["coadd"] == "after" or np.allclose(
            sorted(x for x in r["MEANSNR"] if x != 0),
            sorted(p["snr"].values()), rtol=1e-4, atol=1e-4))


def judge_before(mon, w, o, out, wit):
    deltas, dup, chi2, attr = out
    mon.check(not dup, "once", "extensions written twice", first=dup[:3],
              **wit)
    it = c18.last_iter(attr)
    exp = {}
    for q in w.q:
        if not (q["present"] and w.in_catalog(q, o)):
            continue
        for d in w.exps.get(q["TARGETID"], []):
            mon.count("exposures")
            p = w.prepare(q, d, o)
            if p is None:
                mon.count("cut")
            else:
                exp.setdefault(q["TARGETID"], []).append((d, p))
    rows = {}
    for r in chi2:
        rows.setdefault(int(r["TARGETID"]), []).append(r)
    mon.check(set(rows) <= set(exp), "nothing-else", "quasar that should be "
              "cut", **wit)
    seen = set()
    for t, lst in exp.items():
        q = w.byid[t]
        mon.count("multi_exp", len(lst) > 1)
        rs = rows.get(t, [])
        used = set()
        for d, p in lst:
            m = [i for i, r in enumerate(rs) if i not in used
                 and abs(r["RSNR"] - p["rsnr"]) < 1e-4 * max(
                     1, abs(p["rsnr"])) and same(o, r, p)]
            if not m:
                mon.check(not p["sure"], "complete", "exposure missing from "
                          "the chi2 catalogue", tid=t, expid=d["EXPID"],
                          **wit)
                continue
            used.add(m[0])
            row = rs[m[0]]
            others = sum(same(o, row, p2) and abs(p2["rsnr"] - p["rsnr"])
                         < 1e-3 for _, p2 in lst)
            if others > 1:                  # rows cannot be told apart
                mon.count("ambiguous")
                seen |= {n for n in deltas if n.startswith(f"{t}-")
                         and n.endswith(f"-{d['EXPID']}")}
                continue
            sub, back = {}, {}
            for nm in deltas:
                x = nm.split("-")
                if x[0] == str(t) and x[-1] == str(d["EXPID"]):
                    sub[f"{t}-{x[1]}"] = deltas[nm]
                    back[f"{t}-{x[1]}"] = nm
                    H = {k.upper(): v for k, v in deltas[nm][1].items() if k}
                    headers(mon, w, o, q, d, H, deltas[nm][0], row,
                            dict(wit, ext=nm))
            s2 = set()
            c18.judge_row(mon, w, o, row, p, sub, attr, it, None, s2,
                          dict(wit, tid=t, expid=d["EXPID"]))
            seen |= {back[x] for x in s2}
        mon.check(len(used) == len(rs), "nothing-else", "more rows than "
                  "exposures", tid=t, **wit)
    extra = set(deltas) - seen
    mon.check(not extra, "nothing-else", "extension of no exposure",
              first=sorted(extra)[:3], n=len(extra), **wit)


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    two = rng.random() < .6
    lonely = kind == "lonely"
    more = rng.random() < .5
    geo = int(rng.choice(4, p=[.55, .15, .15, .15]))
    e2e.set_geometry(geo)
    brk = int(rng.choice([4000, 3800, 4200, 4600], p=[.6, .1, .1, .2]))
    w = e2e.World(rng, f"{tmp}/w", mode="data", exposures=True, brk=brk,
                  overlap=int(rng.integers(20, 50)) if rng.random() < .2
                  else None, n=int(rng.integers(36, 60)),
                  npix=3 if lonely else int(rng.integers(3, 7)),
                  reso=bool(rng.random() < .3), bal=bool(rng.random() < .3),
                  surveys=("main", "sv1") if two else ("main",),
                  nights=[20210101, 20220101] if rng.random() < .4 else None,
                  nightof=None, kindof=lambda q, _: "armless"
                  if more and q["kind"] == "good" and rng.random() < .25
                  else None)
    force = dict(exposures="before" if kind == "before" else "after")
    if two:
        force["surveys"] = ["main", "sv1"]
        mon.count("two_surveys")
    force["arms"] = (["B"] if brk == 4600 else ["B", "R", "Z"]
                     if rng.random() < .3 else ["B", "R"])
    if kind != "before":
        force["additive"] = False
        if rng.random() < .5:
            force["fid_vl"] = True
    o = e2e.options(rng, w, "data", **force)
    size = int(rng.integers(1, 4))
    if lonely:
        # all quasars of one pixel fail the fit: a process without spectra
        size = 3
        spoil(w)
    o["niter"] = min(o["niter"], 2)
    mon.count(force["exposures"])
    mon.count("multi_rank", size > 1)
    wit = dict(size=size, coadd=o["coadd"])
    out = c18.run_fit(mon, w, o, f"{tmp}/o", size, case["seed"] % 997, wit)
    mon.state(geo, o["exposures"], o["coadd"], tuple(o["arms"]), size, two,
              o["sky"], o["dla"], o["noise"], o["flux"], o["hpx"])
    if out is None:
        return
    if lonely:
        r = {int(x["MPI_RANK"]) for x in out[2] if x["CONT_valid"]}
        mon.count("empty_rank", len(r) < size)
    (judge_before if o["exposures"] == "before" else judge_after)(
        mon, w, o, out, wit)


def spoil(w):
    """Negative fluxes for every quasar of one pixel."""
    pix = w.q[0]["HPXPIXEL"]
    for q in w.q:
        if q["HPXPIXEL"] != pix:
            continue
        q["kind"] = "negative"
        w.data(q)
    w.write(True)
