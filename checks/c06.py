"""C06: sky and BAL masks."""
import numpy as np

from qv import specs

RULE = ("random sky-mask text files (unsorted, overlapping, reversed, single "
        "row, one frame only, edges on pixels, with or without comment "
        "header) and BAL velocity columns (f4/f8, reversed, non-positive, "
        "several troughs) applied to spectra in several arms; every pixel's "
        "state before/after against the window definition, other spectra and "
        "fields by digest; distinct = (mask kind, rows, frames, on-edge, "
        "fraction masked)")
ASSUMPTIONS = ["rest-frame and BAL window edges that coincide with a pixel "
               "to rounding (single precision if the catalogue is) are not "
               "judged, except where exact"]
REQUIRED = {"sky_windows": 400, "bal_windows": 2000, "masked_pixels": 2000,
            "kept_pixels": 2000, "edge_pixels": 100, "rf_exact_edges": 10,
            "idempotent": 50, "refused": 10, "reversed_troughs": 50,
            "near_edges": 200, "long_list": 8}

C = 299792.458
LINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
         1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]


def cases(tier):
    k = 4 if tier == "quick" else 40
    return ([{"kind": "sky"}] * (250 * k) + [{"kind": "bal"}] * (120 * k)
            + [{"kind": "order"}] * (30 * k)
            + [{"kind": "refuse"}] * (10 * k))


def windows_mask(mon, wave, wins, tol):
    """In-window and ambiguous flags per pixel; wins in wave units."""
    inside = np.zeros(wave.size, bool)
    amb = np.zeros(wave.size, bool)
    for lo, hi, t in wins:
        inside |= (wave >= lo) & (wave < hi)
        if t:
            amb |= np.abs(wave / lo - 1) < t
            amb |= np.abs(wave / hi - 1) < t
    # pixels well inside another window are not ambiguous
    for lo, hi, t in wins:
        sure = (wave >= lo * (1 + t)) & (wave < hi * (1 - t))
        amb &= ~sure
    return inside, amb


def judge(mon, s, before, wins, tag, **wit):
    after = specs.state(s)
    specs.same_state(mon, after, before, "others",
                     tag + ": only flux and ivar may change",
                     skip=("forestflux", "forestivar", "forestivar_sm",
                           "forestweight"), **wit)
    tot = 0
    for a, w in before["forestwave"].items():
        inside, amb = windows_mask(mon, w, wins[a], 0)
        for q in ("forestflux", "forestivar"):
            got, old = after[q][a], before[q][a]
            m = inside & ~amb
            mon.check(np.all(got[m] == 0), "masked",
                      f"{tag}: {q}[{a}] not zero inside a window",
                      wave=w[m][got[m] != 0], **wit)
            m = ~inside & ~amb
            mon.check(np.array_equal(got[m], old[m]), "kept",
                      f"{tag}: {q}[{a}] changed outside all windows",
                      wave=w[m][got[m] != old[m]], **wit)
            m = amb
            mon.check(np.all((got[m] == 0) | (got[m] == old[m])), "kept",
                      f"{tag}: {q}[{a}] edge pixel neither kept nor zero")
        tot += inside.sum()
        mon.count("masked_pixels", (inside & ~amb).sum())
        mon.count("kept_pixels", (~inside & ~amb).sum())
    return after, tot


def make(rng, bal=None, exactz=False, dwave=None):
    arms = ["B", "R", "Z"][:int(rng.integers(1, 4))]
    dwave = dwave or float(rng.choice([0.8, 1.0, 0.5]))
    wave = specs.grids(rng, arms, dwave)
    n = int(rng.integers(2, 5))
    z = rng.choice([1.0, 3.0], n) if exactz else None
    cat = specs.catalog(rng, n, z=z, bal=bal,
                        dt=str(rng.choice(["f8", "f4"])))
    data = specs.data_dict(rng, wave, n, str(rng.choice(["f4", "f8"])),
                           reso=rng.random() < 0.5)
    return wave, cat, data, specs.build(cat, data)


def write_sky(path, rows, rng):
    with open(path, "w") as f:
        if rng.random() < 0.5:
            f.write("# type wave_min wave_max frame\n")
        for t, lo, hi, fr in rows:
            f.write(f"{t} {lo!r} {hi!r} {fr}\n")


def sky_rows(rng, mon, wave, zs, exactz, frames):
    allw = np.concatenate(list(wave.values()))
    rows = []
    # observatories list a few or more than a hundred sky lines
    for _ in range(int(rng.choice([1, 1, 2, 3, 6])) if rng.random() < .93
                   else int(rng.integers(70, 200))):
        fr = str(rng.choice(frames))
        k = rng.random()
        if k < 0.4:
            lo, hi = sorted(float(x) for x in rng.choice(allw, 2))
            if rng.random() < 0.6:
                hi = lo + float(rng.integers(1, 12)) * (allw[1] - allw[0])
            mon.count("edge_pixels")
        else:
            lo = float(rng.uniform(allw.min() - 20, allw.max() + 20))
            hi = lo + float(rng.exponential(8))
        if k > 0.93:
            lo, hi = hi, lo         # empty window
        if fr == "RF":
            z = float(rng.choice(zs))
            lo, hi = lo / (1 + z), hi / (1 + z)
            if k < 0.4 and exactz:
                mon.count("rf_exact_edges")
        rows.append((f"sky{len(rows)}", float(lo), float(hi), fr))
    return rows


def sky_windows(rows, wave, z, exact, tol=1e-6):
    out = {}
    for a in wave:
        out[a] = []
        for _, lo, hi, fr in rows:
            if fr == "OBS":
                out[a].append((lo, hi, 0))
            else:
                t = 0 if exact else tol
                out[a].append((lo * (1 + z), hi * (1 + z), t))
    return out


def run_case(case, mon, tmp):
    from qsonic import QsonicException
    from qsonic.masks import BALMask, SkyMask
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "refuse":
        cols = ["VMIN_CIV_450", "VMAX_CIV_450", "VMIN_CIV_2000",
                "VMAX_CIV_2000"]
        for _ in range(4):
            keep = [c for c in cols if rng.random() < 0.6]
            full = len(keep) == 4
            dt = [("TARGETID", "i8"), ("Z", "f8")] + [
                (c, "f4", (3,)) for c in rng.permutation(keep)]
            cat = np.zeros(2, dtype=dt)
            if full:
                BALMask.check_catalog(cat)
            else:
                mon.count("refused")
                mon.raises(lambda: BALMask.check_catalog(cat), "refuse",
                           f"catalogue with only {keep} accepted",
                           types=(QsonicException,))
            mon.state("refuse", tuple(sorted(keep)))
        mon.seen()
        return

    if case["kind"] == "sky":
        exactz = rng.random() < 0.4
        wave, cat, data, sl = make(
            rng, exactz=exactz,
            dwave=float(rng.choice([0.5, 1.0])) if exactz else None)
        frames = [["OBS", "RF"], ["OBS"], ["RF"]][int(rng.integers(3))]
        rows = sky_rows(rng, mon, wave, cat["Z"], exactz, frames)
        write_sky("sky.txt", rows, rng)
        mask = SkyMask("sky.txt")
        mon.count("sky_windows", len(rows) * len(sl))
        mon.count("long_list", len(rows) > 64)
        idle = specs.state(sl[-1])
        for s in sl[:-1]:
            before = specs.state(s)
            wins = sky_windows(
                rows, before["forestwave"], float(s.z_qso), exactz,
                1e-6 if cat["Z"].dtype.itemsize == 4 else 1e-10)
            mask.apply(s)
            after, tot = judge(mon, s, before, wins, "sky", rows=rows,
                               z=float(s.z_qso))
            mask.apply(s)
            mon.count("idempotent")
            specs.same_state(mon, specs.state(s), after, "idempotent",
                             "second application changed something")
            mon.state("sky", len(rows), tuple(sorted({r[3] for r in rows})),
                      exactz, int(np.log2(tot + 1)))
        specs.same_state(mon, specs.state(sl[-1]), idle, "others",
                         "another spectrum changed")
        mon.seen(rows=rows)
        return

    k1, k2 = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    bdt = str(rng.choice(["f4", "f8"]))
    wave, cat, data, sl = make(rng, bal=(k1, k2, bdt))
    allw = np.concatenate(list(wave.values()))
    single = bdt == "f4" or cat["Z"].dtype.itemsize == 4
    # redshifts at which each of the lines comes into the grid
    for i in np.flatnonzero(rng.random(len(cat)) < .5):
        z = float(rng.choice(allw)) / float(rng.choice(LINES)) / (
            1 - rng.uniform(0, 6000) / C) - 1
        if z > .9:
            cat["Z"][i] = z
    tol = 1e-6 if single else 1e-11
    for tag, k in (("450", k1), ("2000", k2)):
        v1 = rng.uniform(100, 25000, (len(cat), k))
        v2 = v1 + rng.uniform(50, 3000, v1.shape)
        sw = rng.random(v1.shape) < 0.2
        v1[sw], v2[sw] = v2[sw], v1[sw]
        # window edges a hair beside a pixel, on either side of it
        for v in (v1, v2):
            for i, j in zip(*np.nonzero(rng.random(v.shape) < .3)):
                z = float(cat["Z"][i])
                w = float(rng.choice(allw)) * (
                    1 + float(rng.choice([-1, 1])) * 10.**rng.uniform(-9, -6))
                x = [C * (1 - w / (li * (1 + z))) for li in LINES]
                x = [y for y in x if 50 < y < 28000]
                if x:
                    v[i, j] = float(rng.choice(x))
                    mon.count("near_edges")
        for v in (v1, v2):
            # slow ends are troughs too
            b = rng.random(v.shape) < .08
            v[b] = 10.**rng.uniform(-3, 1.5, b.sum())
            v[rng.random(v.shape) < 0.15] = -1
            v[rng.random(v.shape) < 0.1] = 0
        if rng.random() < 0.2:
            v1[:] = -1
        cat[f"VMIN_CIV_{tag}"], cat[f"VMAX_CIV_{tag}"] = v1, v2
    sl = specs.build(cat, data)

    def bal_windows(s):
        wins = []
        for tag in ("450", "2000"):
            for v1, v2 in zip(s.catrow[f"VMIN_CIV_{tag}"].astype("f8"),
                              s.catrow[f"VMAX_CIV_{tag}"].astype("f8")):
                if v1 > 0 and v2 > 0:
                    lo, hi = 1 - max(v1, v2) / C, 1 - min(v1, v2) / C
                    if v1 > v2:
                        mon.count("reversed_troughs")
                    for li in LINES:
                        x = li * (1 + float(s.z_qso))
                        wins.append((x * lo, x * hi, tol))
        mon.count("bal_windows", len(wins))
        return {a: wins for a in s.forestwave}

    if case["kind"] == "bal":
        idle = specs.state(sl[-1])
        for s in sl[:-1]:
            before = specs.state(s)
            wins = bal_windows(s)
            BALMask.apply(s)
            after, tot = judge(mon, s, before, wins, "bal",
                               z=float(s.z_qso), row=s.catrow)
            BALMask.apply(s)
            mon.count("idempotent")
            specs.same_state(mon, specs.state(s), after, "idempotent",
                             "second application changed something")
            n = sum(map(len, wins.values()))
            mon.state("bal", bdt, int(np.log2(n + 1)), int(np.log2(tot + 1)))
        specs.same_state(mon, specs.state(sl[-1]), idle, "others",
                         "another spectrum changed")
        mon.seen(velocities=cat[["VMIN_CIV_450", "VMAX_CIV_450"]][:1])
        return

    # order independence of two sky masks and the BAL mask
    rows1 = sky_rows(rng, mon, wave, cat["Z"], False, ["OBS", "RF"])
    rows2 = sky_rows(rng, mon, wave, cat["Z"], False, ["OBS", "RF"])
    write_sky("a.txt", rows1, rng)
    write_sky("b.txt", rows2, rng)
    ops = [SkyMask("a.txt").apply, SkyMask("b.txt").apply, BALMask.apply]
    ref = None
    for _ in range(3):
        sl = specs.build(cat, data)
        for j in rng.permutation(3):
            for s in sl:
                ops[j](s)
        st = [specs.state(s) for s in sl]
        if ref is None:
            ref = st
        for a, b in zip(st, ref):
            specs.same_state(mon, a, b, "order",
                             "result depends on the order of masks")
        mon.count("order_runs")
    mon.state("order", len(rows1), len(rows2))
    mon.seen()
