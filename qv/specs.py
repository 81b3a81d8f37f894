"""In-memory Spectrum objects for the unit-level monitors."""
import copy

import numpy as np

from qv import synth


def catalog(rng, n, z=None, bal=None, expid=False, dt="f8", extra=()):
    d = [("TARGETID", "i8"), ("Z", dt), ("RA", "f8"), ("DEC", "f8"),
         ("HPXPIXEL", "i8"), ("SURVEY", "<U8")]
    if bal:
        k1, k2, bdt = bal
        d += [("VMIN_CIV_450", bdt, (k1,)), ("VMAX_CIV_450", bdt, (k1,)),
              ("VMIN_CIV_2000", bdt, (k2,)), ("VMAX_CIV_2000", bdt, (k2,))]
    if expid:
        d += [("EXPID", "i4"), ("NIGHT", "i4"), ("FIBER", "i4"),
              ("PETAL_LOC", "i2"), ("TILEID", "i4")]
    d += list(extra)
    c = np.zeros(n, dtype=d)
    c["TARGETID"] = synth.spread_targetids(rng, n)
    c["Z"] = rng.uniform(2.0, 3.2, n) if z is None else z
    c["RA"] = rng.uniform(0, 360, n)
    c["DEC"] = rng.uniform(-80, 80, n)
    c["HPXPIXEL"] = rng.integers(0, 6, n)
    c["SURVEY"] = rng.choice(["main", "sv1", "sv3"], n)
    if expid:
        c["EXPID"] = np.arange(n) + int(rng.choice([1000, 99990, 301234]))
        c["NIGHT"] = 20210101
    return c


def grids(rng, arms, dwave=0.8, w0=None, nlo=40, nhi=90, gap=8, overlap=20):
    wave, start = {}, 0
    w0 = float(rng.integers(3500, 4200)) if w0 is None else w0
    for a in arms:
        n = int(rng.integers(nlo, nhi))
        wave[a] = w0 + dwave * (start + np.arange(n))
        start += n - int(rng.integers(-gap, overlap + 1))
        start = max(start, 1)
    return wave


def dtype_of(x, dtype):
    return np.dtype(dtype).type(x)


def data_dict(rng, wave, n, dtype="f4", reso=None, p_mask=0.05, level=2.0,
              two_d=False, ndiag=None):
    """reso: None/False or True."""
    data = {"wave": wave, "flux": {}, "ivar": {}, "mask": {}, "reso": {}}
    for a, w in wave.items():
        f = rng.normal(level, 0.5, (n, w.size)).astype(dtype)
        i = rng.uniform(0.5, 4.0, (n, w.size)).astype(dtype)
        if rng.random() < .3:
            # arms and pixels of very different quality, noise around zero
            i *= (10**rng.uniform(-2.5, 1.5)
                  * 10**rng.uniform(-.7, .7, i.shape)).astype(dtype)
            f -= dtype_of(rng.choice([0, level, 1.3 * level]), dtype)
        m = (rng.random((n, w.size)) < p_mask).astype("i4")
        data["flux"][a], data["ivar"][a], data["mask"][a] = f, i, m
        if reso:
            nd = ndiag[a] if ndiag else 5
            data["reso"][a] = (
                synth.random_reso(rng, nd, w.size, dtype) if two_d else
                np.array([synth.random_reso(rng, nd, w.size, dtype)
                          for _ in range(n)]))
    return data


def build(cat, data, region=None):
    """Spectrum list with the forest set to everything (or `region`)."""
    from qsonic.spectrum import Spectrum
    out = []
    for k in range(len(cat)):
        s = Spectrum.from_dictionary(cat[k], data, k)
        s.set_forest_region(*(region or (1.0, 1e6, 0.1, 1e5)))
        out.append(s)
    return out


_pristine = {}


def reset_statics():
    """Fresh class state, as in a new process (first call: take note)."""
    from qsonic.spectrum import Spectrum
    cur = {k: v for k, v in vars(Spectrum).items()
           if not k.startswith("__") and not callable(v)
           and not isinstance(v, (property, staticmethod, classmethod))}
    if not _pristine:
        _pristine.update(copy.deepcopy(cur))
        return
    for k in cur:
        if k not in _pristine:
            delattr(Spectrum, k)
    for k, v in _pristine.items():
        setattr(Spectrum, k, copy.deepcopy(v))


FIELDS = ("forestwave", "forestflux", "forestivar", "forestivar_sm",
          "forestweight", "forestreso")


def state(s):
    """Deep copy of the public state of a spectrum."""
    d = {q: {a: np.array(v, copy=True) for a, v in getattr(s, q).items()}
         for q in FIELDS}
    d["cont"] = {a: np.array(v, copy=True)
                 for a, v in (s.cont_params["cont"] or {}).items()}
    d["params"] = {k: copy.deepcopy(v) for k, v in s.cont_params.items()
                   if k != "cont"}
    d["snr"] = (float(s.rsnr), {k: float(v) for k, v in
                                (s.mean_snr or {}).items()})
    d["catrow"] = repr(s.catrow)
    return d


def same_state(mon, a, b, key, msg, skip=(), **wit):
    """Bit-level equality of two states, except the fields in `skip`."""
    for q in list(FIELDS) + ["cont"]:
        if q in skip:
            continue
        if not mon.check(sorted(a[q]) == sorted(b[q]), key,
                         f"{msg}: arms of {q}", **wit):
            continue
        for arm in a[q]:
            mon.equal(a[q][arm], b[q][arm], key, f"{msg}: {q}[{arm}]", **wit)
    if "snr" not in skip:
        mon.check(a["snr"] == b["snr"], key, f"{msg}: S/N", **wit)
    mon.check(a["catrow"] == b["catrow"], key, f"{msg}: catalogue row", **wit)
