"""Independent re-implementations of the documented definitions."""
import numpy as np


def gauss_smooth(x, sigma, pad):
    """Gaussian filter (given real-space sigma in pixels) of the array padded
    with its edge values by `pad` pixels on both sides, periodic."""
    x = np.asarray(x, dtype="f8")
    y = np.concatenate([np.full(pad, x[0]), x, np.full(pad, x[-1])])
    n = y.size
    k = np.fft.fftfreq(n) * 2 * np.pi
    r = np.fft.ifft(np.fft.fft(y) * np.exp(-0.5 * (k * sigma)**2)).real
    return r[pad:pad + x.size]


def smooth_ivar(ivar, sigma_pix, esigma=3.5, real_sigma=None,
                exact=False):
    """Documented get_smooth_ivar; None if an outlier decision is within
    rounding.  `real_sigma` is the width of the filter in real space.
    `exact`: `ivar` is the very array the code was given, so that equal
    values are equal there as well."""
    ivar = np.asarray(ivar, dtype="f8")
    good = ivar > 0
    if not good.any():
        return np.zeros(ivar.size)
    err = np.zeros(ivar.size)
    err[good] = ivar[good]**-0.5
    med = np.median(err[good])
    err[~good] = med
    mad = 1.4826 * np.median(np.abs(err[good] - med))
    exc = err - med - esigma * mad
    close = np.abs(exc[good]) < 3e-6 * med
    if exact and mad == 0:
        close &= err[good] != med  # a pixel at the median is no outlier
    if close.any():
        return None
    out = exc > 0
    keep = err[out]
    err[out] = med
    err = gauss_smooth(err, sigma_pix if real_sigma is None else real_sigma,
                       max(1, int(3 * sigma_pix)))
    err[out] = keep
    r = err**-2
    r[~good] = 0
    return r


def weight(ivar, varlss, eta, cont):
    return ivar / (eta + ivar * varlss * cont**2)


def mean_reso_kms(reso, wave, weight, dwave):
    reso = np.asarray(reso, "f8")
    weight = np.asarray(weight, "f8")
    p = (reso * weight).sum(1) / weight.sum()
    leff = (wave * weight).sum() / weight.sum()
    c = int(np.argmax(p))
    s = []
    for o in (-2, -1, 1, 2):
        q = np.log(p[c] / p[c + o])
        if q > 0:
            s.append(abs(o) / np.sqrt(2 * q))
    return np.mean(s) * 3e5 * dwave / leff


def varlss_fit(var, cen, e, npx, nq, nwb, nvb, minpix, minqso, eta=True,
               covs=None):
    """Bounded weighted least squares per wavelength bin from variance
    statistics.  Returns list of (solution, std, at_bound) or None."""
    from scipy.linalg import solve_triangular
    from scipy.optimize import lsq_linear
    out = []
    for k in range(nwb):
        s = np.arange(k * nvb, (k + 1) * nvb)
        w = (npx[s] >= minpix) & (nq[s] >= minqso)
        if w.sum() < 5:
            w = (npx[s] >= minpix // 2) & (nq[s] >= minqso // 2)
        if w.sum() < 5:
            out.append(None)
            continue
        s = s[w]
        A = np.ones((s.size, 2 if eta else 1))
        b = var[s].copy()
        if eta:
            A[:, 1] = cen[s]
        else:
            b = b - cen[s]
        L = None
        if covs is not None:
            try:
                L = np.linalg.cholesky(
                    covs[k][np.ix_(s - k * nvb, s - k * nvb)])
            except np.linalg.LinAlgError:
                pass
        if L is None:
            A2, b2 = A / e[s][:, None], b / e[s]
        else:
            A2 = solve_triangular(L, A, lower=True)
            b2 = solve_triangular(L, b, lower=True)
        if not (np.isfinite(A2).all() and np.linalg.cond(A2) < 1e5):
            out.append((np.full(A.shape[1], np.nan), None, True))
            continue
        r = lsq_linear(A2, b2, bounds=(0, 2), tol=1e-12)
        out.append((r.x, np.sqrt(np.diag(np.linalg.inv(A2.T @ A2))),
                    bool(np.any(r.x < 1e-4) or np.any(r.x > 2 - 1e-4))))
    return out


def smooth_fit(x, sols):
    """Smoothing spline through the valid solutions, or None if undecided."""
    from scipy.interpolate import UnivariateSpline
    ok = np.array([s is not None for s in sols])
    if ok.sum() < 2 or any(s[2] for s in sols if s is not None):
        return None
    v = np.array([s[0] for s in sols if s is not None])
    e = np.array([s[1] for s in sols if s is not None])
    return np.array([UnivariateSpline(x[ok], v[:, q], w=1 / e[:, q],
                                      k=min(3, ok.sum() - 1))(x)
                     for q in range(v.shape[1])]).T
