"""C15: SubsampleCov against a direct delete-one jackknife."""
import numpy as np

from qv import fakempi

RULE = ("random histories of add / query / refused add / reset / re-add with "
        "nsamples 2-12, data 1-12 values x 1-3 sets, zero-weight bins, more "
        "and fewer measurements than samples, start offsets, 1-4 processes; "
        "each answer against a loop-based delete-one jackknife; distinct = "
        "(ndata, nsets, fill, first query, processes, bias)")
ASSUMPTIONS = ["a sample that alone holds all the weight of a bin gives a "
               "regularised (eps) delete-one mean; only finiteness and "
               "consistency are judged for the error of such bins"]
REQUIRED = {"mean": 300, "var": 200, "cov": 150, "block": 60, "bias": 60,
            "refused": 200, "reset": 100, "parallel": 60, "zero_bins": 100,
            "repeat": 200, "indices": 30, "units": 30}


def cases(tier):
    k = 4 if tier == "quick" else 40
    return [{"kind": "serial"}] * (170 * k) + [{"kind": "mpi"}] * (50 * k)


def jackknife(M, W):
    """M: (ns, nset, nd) weighted sums; W: (ns, nd) weights."""
    ns, nset, nd = M.shape
    tot = W.sum(0)
    mean = np.zeros((nset, nd))
    jack = np.zeros((ns, nset, nd))
    lone = np.zeros(nd, bool)
    for k in range(nd):
        if tot[k] == 0:
            continue
        mean[:, k] = M[:, :, k].sum(0) / tot[k]
        for i in range(ns):
            r = tot[k] - W[i, k]
            if r <= 1e-12 * tot[k]:
                lone[k] = True
            else:
                jack[i, :, k] = (M[:, :, k].sum(0) - M[i, :, k]) / r
    return mean, jack, lone


def expected(M, W):
    ns = M.shape[0]
    mean, jack, lone = jackknife(M, W)
    jm = jack.mean(0)
    d = jack - jm
    cov = [(ns - 1) / ns * sum(np.outer(d[i, j], d[i, j])
                               for i in range(ns))
           for j in range(M.shape[1])]
    bias = (ns - 1) * (jm - mean)
    return mean, cov, mean - bias, lone


def judge(mon, what, got, exp, rtol, wit):
    kind, bias, blk, idx = what
    mean, cov, bmean, lone = exp
    ok = ~lone
    scale = np.abs(mean).max() + 1
    atol = 1e-9 * scale
    m = got if kind == "mean" else got[0]
    em = bmean if bias else mean
    if bias:
        mon.count("bias")
    mon.count("mean")
    mon.finite(m, "finite", "mean not finite", **wit)
    mon.close(m[:, ok], em[:, ok], "mean" if not bias else "bias",
              "weighted mean", rtol=rtol, atol=atol * 100, **wit)
    if kind == "mean":
        return
    at = 1e-9 * scale**2
    if kind == "var":
        mon.count("var")
        v = got[1]
        mon.finite(v, "finite", "variance", **wit)
        e = np.array([np.diag(c) for c in cov])
        mon.close(v[:, ok], e[:, ok], "var", "jackknife variance",
                  rtol=rtol, atol=at, **wit)
        mon.check(np.all(v >= 0), "var", "negative variance", **wit)
        return
    c = got[1]
    nset, nd = mean.shape
    use = range(nset) if idx is None else idx
    for j in use:
        mon.count("cov")
        x = c[j]
        mon.finite(x, "finite", "covariance", **wit)
        if blk is None:
            mon.check(x.shape == (nd, nd), "cov", "shape", **wit)
            mon.close(x[np.ix_(ok, ok)], cov[j][np.ix_(ok, ok)], "cov",
                      "jackknife covariance", rtol=rtol, atol=at, **wit)
            blocks = [x]
        else:
            mon.count("block")
            mon.check(x.shape == (nd // blk, blk, blk), "cov",
                      "block shape", **wit)
            for b in range(nd // blk):
                s = np.arange(b * blk, (b + 1) * blk)
                s2 = s[ok[s]]
                mon.close(x[b][np.ix_(s2 - b * blk, s2 - b * blk)],
                          cov[j][np.ix_(s2, s2)], "cov",
                          "block covariance", rtol=rtol, atol=at, **wit)
            blocks = list(x)
        for b in blocks:
            sc = np.abs(b).max() + 1e-300
            mon.check(np.allclose(b, b.T, rtol=1e-9, atol=1e-12 * sc),
                      "symmetric", "covariance not symmetric", **wit)
            mon.check(np.linalg.eigvalsh(b).min() > -1e-9 * sc - 1e-30,
                      "psd", "covariance not positive semi-definite", **wit)
    if idx is not None:
        mon.count("indices")




def run_case(case, mon, tmp):
    from qsonic.mathtools import SubsampleCov
    rng = np.random.default_rng(case["seed"])
    ns = int(rng.integers(2, 13))
    nd = int(rng.choice([1, 2, 4, 6, 12]))
    if rng.random() < .03:
        # the programs use thousands of subsamples
        ns, nd = int(rng.integers(1001, 1500)), int(rng.choice([1, 2]))
        mon.count("many")
    nset = int(rng.integers(1, 4))
    flat = nset == 1 and rng.random() < 0.5
    zero = rng.random(nd) < 0.2
    if zero.any():
        mon.count("zero_bins")

    # the unit of the weights is arbitrary
    unit = 10.**rng.integers(-12, 9) if rng.random() < .3 else 1.
    mon.count("units", unit != 1)

    def measurement(r):
        w = unit * r.uniform(0.1, 3, nd) * (r.random(nd) > 0.15)
        w[zero] = 0
        x = r.normal(1, 2, (nset, nd)) * w
        return (x[0] if flat else x), w

    def fill():
        nm = int(rng.choice([1, ns - 1, ns, 3 * ns + 1, 5]))
        return [measurement(rng) for _ in range(max(1, nm))]

    if case["kind"] == "mpi":
        size = int(rng.integers(1, 5))
        rounds = [[fill() for _ in range(size)]
                  for _ in range(int(rng.integers(1, 4)))]
        starts = [int(rng.integers(0, 2 * ns)) for _ in range(size)]
        blk = None if rng.random() < 0.5 or nd < 4 else 2
        query = [bool(rng.random() < .7) for _ in rounds]
        query[-1] = True

        def fn(comm):
            from mpi4py import MPI
            r = comm.Get_rank()
            s = SubsampleCov(nd if flat else (nset, nd), ns, starts[r])
            out = []
            for lists, ask in zip(rounds, query):
                for x, w in lists[r]:
                    s.add_measurement(x, w)
                if ask:
                    s.allreduce(comm, MPI.IN_PLACE)
                    m, v = s.get_mean_n_var()
                    m, v = m.copy(), v.copy()
                    m2, c = s.get_mean_n_cov(blockdim=blk)
                    out.append((m, v, [x.copy() for x in c]))
                else:
                    out.append(None)
                s.reset()
            return out

        res = fakempi.run(size, fn, seed=case["seed"] % 1000)
        if not mon.check(res.all_ok(), "mpi", "parallel run failed: "
                         + res.describe()):
            return
        for k, lists in enumerate(rounds):
            if not query[k]:
                mon.count("discarded")
                continue
            M, W = np.zeros((ns, nset, nd)), np.zeros((ns, nd))
            for r in range(size):
                for i, (x, w) in enumerate(lists[r]):
                    M[(starts[r] + i) % ns] += x
                    W[(starts[r] + i) % ns] += w
            exp = expected(M, W)
            wit = dict(size=size, ns=ns, nd=nd, round=k)
            mon.count("parallel_again", k > 0)
            for vals in res.values:
                m, v, c = vals[k]
                mon.count("parallel")
                judge(mon, ("var", False, None, None), (m, v), exp, 1e-6, wit)
                judge(mon, ("cov", False, blk, None), (m, c), exp, 1e-6, wit)
                mon.equal(m, res.values[0][k][0], "mpi", "ranks disagree")
        mon.state("mpi", size, nset, nd)
        mon.seen()
        return

    start = int(rng.integers(0, 2 * ns))
    s = SubsampleCov(nd if flat else (nset, nd), ns, start) if start else \
        SubsampleCov(nd if flat else (nset, nd), ns)
    for rnd in range(2):
        ms = fill()
        M, W = np.zeros((ns, nset, nd)), np.zeros((ns, nd))
        for i, (x, w) in enumerate(ms):
            x0, w0 = x.copy(), w.copy()
            s.add_measurement(x, w)
            mon.check(np.array_equal(x, x0) and np.array_equal(w, w0),
                      "frame", "measurement modified")
            M[(start + i) % ns] += x
            W[(start + i) % ns] += w
        exp = expected(M, W)
        first = None
        for q in range(int(rng.integers(2, 6))):
            kind = str(rng.choice(["mean", "var", "cov"]))
            bias = kind != "mean" and rng.random() < 0.25
            blk = None
            if kind == "cov" and rng.random() < 0.5:
                blk = int(rng.choice([b for b in (1, 2, 3, nd)
                                      if nd % b == 0]))
            idx = [int(rng.integers(nset))] if (
                kind == "cov" and rng.random() < 0.4) else None
            first = first or kind
            wit = dict(query=q, kind=kind, first=first, ns=ns, nd=nd,
                       nset=nset, nmeas=len(ms), bias=bias, block=blk)
            try:
                if kind == "mean":
                    g = s.get_mean()
                elif kind == "var":
                    g = s.get_mean_n_var(bias_correct=bias)
                else:
                    g = s.get_mean_n_cov(indices=idx, blockdim=blk,
                                         bias_correct=bias)
            except Exception as e:
                mon.fail("query-crash", f"query {kind} after {first}: "
                         f"{type(e).__name__}: {e}", **wit)
                continue
            mon.count("repeat")
            judge(mon, (kind, bias, blk, idx), g, exp, 1e-6, wit)
            mon.count("refused")
            mon.raises(lambda: s.add_measurement(*ms[0]), "refused",
                       "adding after a query", types=(RuntimeError,), **wit)
        s.reset()
        mon.count("reset")
        mon.state("serial", nset, nd, flat, np.sign(len(ms) - ns), first)
    # fresh object after reset behaves like the initial state
    x, w = measurement(rng)
    s.add_measurement(x, w)
    M, W = np.zeros((ns, nset, nd)), np.zeros((ns, nd))
    M[start % ns] += x
    W[start % ns] += w
    judge(mon, ("mean", False, None, None), s.get_mean(), expected(M, W),
          1e-9, {})
    mon.raises(lambda: SubsampleCov("3", 4), "shape", "bad shape accepted")
    mon.seen()
