"""C16: interpolators and math kernels against their definitions."""
import numpy as np

from qv import poison, ref

RULE = ("random equally spaced tables (2-80 nodes, negative/large/small "
        "scales), evaluation inside, at nodes and far outside, both boundary "
        "conditions, copy/reset histories, aliasing, poisoned memory; "
        "references: loop interpolation and scipy.CubicSpline; polynomial, "
        "covariance, smoothing and outlier kernels against loops; distinct = "
        "(kernel, size class, mode)")
ASSUMPTIONS = ["cubic not-a-knot needs 4 nodes; with fewer nodes the spline "
               "is the parabola (3) or the line (2) through them"]
REQUIRED = {"linear": 150, "cubic": 200, "small": 40, "reset": 150,
            "nodes": 2000, "outside": 2000, "poly": 60, "blockcov": 60,
            "smooth": 60, "outlier": 60, "poison_runs": 150, "node_exact": 300}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return ([{"kind": "linear"}] * (60 * k) + [{"kind": "cubic"}] * (110 * k)
            + [{"kind": "kernel"}] * (70 * k))


def table(rng, n):
    return rng.normal(0, 1, n) * 10.0**rng.integers(-3, 4) + rng.normal()


def lin_ref(x, x0, dx, f):
    out = np.empty(x.size)
    for i, v in enumerate(x):
        t = (v - x0) / dx
        k = min(max(int(np.floor(t)), 0), f.size - 2)
        out[i] = f[k] + (t - k) * (f[k + 1] - f[k])
    return out


def cubic_ref(x, x0, dx, f, bc):
    from scipy.interpolate import CubicSpline
    xp = np.arange(f.size, dtype=float)
    if f.size == 2:
        return f[0] + (f[1] - f[0]) * (x - x0) / dx
    return CubicSpline(xp, f, bc_type=bc, extrapolate=True)((x - x0) / dx)


def points(rng, mon, x0, dx, n):
    ins = x0 + dx * rng.uniform(0, n - 1, 40)
    out = np.concatenate([x0 - dx * rng.uniform(0, 3, 10),
                          x0 + dx * (n - 1 + rng.uniform(0, 3, 10))])
    nodes = x0 + dx * np.arange(n)
    mon.count("outside", out.size)
    mon.count("nodes", nodes.size)
    x = np.concatenate([ins, out, nodes])
    return x[rng.permutation(x.size)], nodes


def run_interp(case, mon, rng):
    from qsonic.mathtools import FastCubic1DInterp, FastLinear1DInterp
    cubic = case["kind"] == "cubic"
    small = rng.random() < 0.25
    n = int(rng.integers(2, 6)) if small else int(rng.integers(6, 81))
    if cubic and rng.random() < 0.2:
        n = int(rng.integers(15, 24))
    bc = str(rng.choice(["not-a-knot", "natural"])) if cubic else ""
    exact = rng.random() < 0.5
    if exact:
        x0, dx = float(rng.integers(-50, 4000)), float(
            rng.choice([0.5, 1, 8, 0.25]))
    else:
        x0, dx = float(rng.uniform(-10, 4000)), float(rng.uniform(.01, 130))
    f = table(rng, n)
    copy = bool(rng.random() < 0.5)
    kw = {"copy": copy} if copy or rng.random() < .5 else {}
    if cubic and not (bc == "not-a-knot" and rng.random() < 0.5):
        kw["bc_type"] = bc
    cls = FastCubic1DInterp if cubic else FastLinear1DInterp
    # recycled memory left over by an unrelated spline must not matter
    vals = []
    for pz in (3.0, np.nan, -1e7):
        with poison.poison(pz):
            o = cls(x0, dx, f, **kw)
            x = x0 + dx * np.linspace(-1.3, n + .4, 37)
            vals.append(o(x).copy())
    mon.count("poison_runs")
    for v in vals[1:]:
        mon.equal(v, vals[0], "poison", "depends on uninitialised memory",
                  n=n, bc=bc)
    ep = rng.random(n) if rng.random() < .5 else None
    f0 = f.copy()
    o = cls(x0, dx, f, ep=ep, **kw) if ep is not None else cls(
        x0, dx, f, **kw)
    mon.equal(f, f0, "frame", "table modified")
    for step in range(3):
        x, nodes = points(rng, mon, x0, dx, n)
        x0c = x.copy()
        y = o(x)
        wit = dict(n=n, bc=bc, x0=x0, dx=dx, step=step)
        mon.equal(x, x0c, "frame", "argument modified", **wit)
        mon.count("cubic" if cubic else "linear")
        mon.count("small", n < 6)
        t = (x - x0) / dx
        if not cubic:
            exp = lin_ref(x, x0, dx, f0)
        else:
            exp = cubic_ref(x, x0, dx, f0, bc)
        sc = np.abs(f0).max() * (1 + np.maximum(0, np.maximum(
            -t, t - n + 1)))**3
        mon.finite(y, "finite", "not finite", **wit)
        ok = np.abs(y - exp) <= 1e-7 * sc * (10 if cubic else 1)
        i = int(np.argmin(ok))
        mon.check(ok.all(), ("cubic-" + bc + ("-small" if n < 4 else ""))
                  if cubic else "linear",
                  "interpolated value", at=t[i], actual=y[i],
                  expected=exp[i], **wit)
        yn = o(nodes)
        mon.count("node_exact")
        mon.close(yn, f0, "nodes", "value at nodes",
                  rtol=1e-9, atol=1e-7 * np.abs(f0).max(), **wit)
        # repeated evaluation is pure
        mon.equal(o(x), y, "pure", "second call differs", **wit)
        # single point evaluations equal vector evaluation
        j = int(rng.integers(x.size))
        mon.close(o(x[j:j + 1]), y[j:j + 1], "pure", "single point",
                  rtol=1e-12, atol=1e-300, **wit)
        # new values
        mon.count("reset")
        old, old0 = f, f.copy()
        f = table(rng, n)
        f0 = f.copy()
        cp = bool(rng.random() < 0.5)
        ep = rng.random(n)
        o.reset(f, copy=cp, ep=ep)
        mon.equal(old, old0, "frame", "reset changed the previous table of "
                  "the caller", **wit)
        mon.equal(o.fp, f0, "reset", "latest values", **wit)
        mon.equal(o.ep, ep, "reset", "latest errors", **wit)
        if cp:
            f[:] = 1e5
            mon.equal(o.fp, f0, "reset", "copy aliases its source", **wit)
    if cubic:
        mon.raises(lambda: cls(x0, dx, f, bc_type="clamped?"), "bc",
                   "unknown boundary condition accepted")
    mon.state(case["kind"], bc, min(n, 6) if n < 7 else n // 20, exact, copy)


def run_kernel(case, mon, rng):
    from qsonic import mathtools as mt
    # polynomial
    c = rng.normal(0, 1, int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12])))
    x = rng.uniform(-1.5, 1.5, int(rng.integers(1, 40)))
    c0, x0 = c.copy(), x.copy()
    y = mt.mypoly1d(c, x)
    e = np.array([sum(a * v**i for i, a in enumerate(c)) for v in x])
    mon.count("poly")
    mon.close(y, e, "poly", "power series", rtol=1e-10, atol=1e-10)
    mon.equal(c, c0, "frame", "coefficients modified")
    mon.equal(x, x0, "frame", "argument modified")
    # covariance of squares
    nb, n = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    mean = rng.normal(0, 1, nb * n)
    cov = np.empty((nb, n, n))
    for b in range(nb):
        a = rng.normal(0, 1, (n, n + 1))
        cov[b] = a @ a.T
    var = np.concatenate([np.diag(cov[b]) for b in range(nb)])
    for pz in (1.0, np.nan):
        with poison.poison(pz):
            r = mt.block_covariance_of_square(mean, var, cov)
    mon.count("blockcov")
    exp = np.empty_like(cov)
    for b in range(nb):
        for i in range(n):
            for j in range(n):
                vi, vj = var[b * n + i], var[b * n + j]
                mi, mj = mean[b * n + i], mean[b * n + j]
                cc = cov[b, i, j]
                exp[b, i, j] = (vi * vj + cc**2 + 2 * cc * mi * mj
                                + vi * mj**2 + vj * mi**2)
    mon.close(r, exp, "blockcov", "covariance of squares", rtol=1e-9,
              atol=1e-10)
    # smoothing
    n = int(rng.integers(5, 150))
    sig = float(rng.choice([0.2, 1, 3.3, 10, 20]))
    x = rng.normal(3, 1, n)
    x0 = x.copy()
    y = mt.fft_gaussian_smooth(x, sig)
    mon.count("smooth")
    mon.equal(x, x0, "frame", "argument of the smoother modified")
    pad = max(1, int(3 * sig))
    if mon.check(y.shape == x.shape, "smooth", "size"):
        doc = ref.gauss_smooth(x, sig, pad)
        cur = ref.gauss_smooth(x, sig / 2 / np.pi, pad)
        if np.allclose(y, doc, rtol=1e-8, atol=1e-9):
            mon.count("smooth_documented")
        elif np.allclose(y, cur, rtol=1e-8, atol=1e-9):
            mon.fail("smooth-width-2pi", "fft_gaussian_smooth smooths with "
                     "sigma_pix/(2 pi) instead of sigma_pix pixels",
                     sigma=sig)
        else:
            mon.close(y, cur, "smooth", "Gaussian smoothing", rtol=1e-8,
                      atol=1e-9, sigma=sig, n=n)
        k = np.full(n, 2.5)
        mon.close(mt.fft_gaussian_smooth(k, sig), k, "smooth",
                  "constant changed", rtol=1e-9)
    # outliers
    from scipy.ndimage import median_filter
    n = int(rng.integers(12, 90))
    f = rng.normal(2, 0.3, n)
    iv = rng.uniform(2, 30, n)
    iv[rng.random(n) < 0.2] = 0
    if rng.random() < 0.08:
        iv[:] = 0
    f[rng.random(n) < 0.08] += rng.choice([20, -15, 3])
    es, nw = (3.5, 11) if rng.random() < 0.6 else (
        float(rng.uniform(2, 6)), int(rng.choice([5, 7, 9])))
    args = () if (es, nw) == (3.5, 11) else (es, nw)
    f0, iv0 = f.copy(), iv.copy()
    m = mt.get_median_outlier_mask(f, iv, *args)
    mon.count("outlier")
    mon.check(np.array_equal(f, f0) and np.array_equal(iv, iv0), "frame",
              "outlier mask modified its input")
    g = iv != 0
    exp, exp1 = ~g, ~g
    amb = np.zeros(n, bool)
    if g.any():
        d = np.abs(f[g] - median_filter(f[g], size=nw))
        s = 1.4826 * median_filter(d, size=nw)
        for floor in (0.0, 1.0):
            thr = es * np.maximum(iv[g]**-.5, np.maximum(s, floor))
            (exp if not floor else exp1)[g] = d > thr
            amb[g] |= np.abs(d - thr) < 1e-6 * thr
    ok = m.dtype == bool and np.array_equal(m[~amb], exp[~amb])
    if not ok and np.array_equal(m[~amb], exp1[~amb]):
        mon.fail("outlier-floor", "get_median_outlier_mask does not mask "
                 "outliers below esigma flux units (sigma of the median "
                 "filter is bounded from below by one)")
    else:
        mon.check(ok, "outlier", "outlier mask", actual=m, expected=exp,
                  esigma=es, nwindow=nw)
    mon.state("kernel", nb, sig, (es, nw) == (3.5, 11), g.any())


def run_case(case, mon, tmp):
    rng = np.random.default_rng(case["seed"])
    for _ in range(3):
        if case["kind"] == "kernel":
            run_kernel(case, mon, rng)
        else:
            run_interp(case, mon, rng)
    mon.seen()
