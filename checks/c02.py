"""C02: work distribution is an exact, balanced partition by HEALPix/tile."""
import os

import numpy as np

from qv import fakempi, synth
from checks import c01

RULE = ("random catalogues scattered over 1..9 simulated MPI ranks by "
        "mpi_get_local_queue, and balance_load on random group sizes; "
        "non-trivial = at least two groups and every queue entry compared; "
        "distinct = (ranks, groups, tile, size profile)")
ASSUMPTIONS = ["MPI is replaced by an in-harness implementation with one OS "
               "process per rank", "fitsio and healpy are trusted"]
REQUIRED = {"queues": 200, "groups_checked": 800, "rows_checked": 3000,
            "balance_calls": 300, "fewer_groups_than_ranks": 5,
            "tile_runs": 5,
            "tile_alone": 4, "large": 4, "manyranks": 20,
            "survey": 10}


def cases(tier):
    a, b = (300, 50) if tier == "quick" else (1500, 300)
    return ([{"kind": "mpi", "cost": 3}] * a + [{"kind": "balance"}] * b
            + [{"kind": "nocomm"}] * (24 if tier == "quick" else 40))


def rowset(arrs):
    out = []
    for a in arrs:
        for r in a:
            out.append(tuple(
                x.tobytes() if isinstance(x, np.ndarray) else
                (repr(float(x)) if isinstance(x, (float, np.floating))
                 else (int(x) if isinstance(x, (int, np.integer)) else str(x)))
                for x in (r[n] for n in sorted(a.dtype.names))))
    return out


def check_partition(mon, queues, catalog, split, nrank, **wit):
    """queues: list over ranks of list of structured arrays."""
    got = rowset([g for q in queues for g in q])
    exp = rowset([catalog])
    mon.check(sorted(map(repr, got)) == sorted(map(repr, exp)), "partition",
              "rows over all ranks are not exactly the selected catalogue",
              n_got=len(got), n_exp=len(exp), **wit)
    keys = []
    for r, q in enumerate(queues):
        mon.count("queues")
        for g in q:
            mon.count("groups_checked")
            mon.count("rows_checked", g.size)
            ks = np.unique(g[split])
            mon.check(ks.size == 1, "grouping",
                      f"group on rank {r} mixes {split} values {ks}", **wit)
            keys.append((int(ks[0]), r))
            # group is sorted like the catalogue
            sub = catalog[catalog[split] == ks[0]]
            mon.check(rowset([g]) == rowset([sub]), "sorted",
                      f"group {ks[0]} is not the sorted catalogue slice",
                      **wit)
    mon.check(len({k for k, _ in keys}) == len(keys), "grouping",
              f"a {split} value is split over groups or ranks", keys=keys,
              **wit)
    check_balance(mon, [[g.size for g in q] for q in queues], **wit)


def check_balance(mon, sizes, **wit):
    loads = [sum(q) for q in sizes]
    ngroups = sum(len(q) for q in sizes)
    if ngroups >= len(sizes):
        mon.check(min(len(q) for q in sizes) > 0, "idle",
                  "a rank has no work though there are enough groups",
                  loads=loads, **wit)
    else:
        mon.count("fewer_groups_than_ranks")
        mon.check(max(len(q) for q in sizes) <= 1, "idle",
                  "a rank has two groups while another has none",
                  loads=loads, **wit)
    for q in sizes:
        mon.check(not q or sum(q) - min(q) <= min(loads), "balance",
                  "a rank is heavier than the lightest one by more than its "
                  "smallest group", sizes=[sorted(q) for q in sizes][:20],
                  **wit)
    biggest = max([max(q) for q in sizes if q] or [0])
    mon.check(max(loads) - min(loads) <= biggest, "balance",
              "heaviest rank exceeds lightest by more than one group",
              loads=loads, biggest=biggest, **wit)


def run_case(case, mon, tmp):
    from qsonic.catalog import mpi_get_local_queue, read_quasar_catalog
    from qsonic.mpi_utils import balance_load
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "balance":
        for _ in range(25):
            ng = int(rng.integers(1, 40)) if rng.random() < .9 else int(
                rng.integers(100, 1500))
            prof = str(rng.choice(["flat", "skew", "onebig", "ones"]))
            if prof == "flat":
                sz = rng.integers(1, 50, ng)
            elif prof == "skew":
                sz = (rng.pareto(1.0, ng) * 5 + 1).astype(int).clip(1, 3000)
            elif prof == "onebig":
                sz = np.ones(ng, int)
                sz[rng.integers(ng)] = 500
            else:
                sz = np.ones(ng, int)
            groups, nid = [], 0
            for k, s in enumerate(sz):
                g = np.zeros(s, dtype=[("HPXPIXEL", "i8"), ("TARGETID", "i8")])
                g["HPXPIXEL"] = k
                g["TARGETID"] = nid + np.arange(s)
                nid += s
                groups.append(g)
            n = int(rng.integers(1, 17)) if rng.random() < .8 else int(
                rng.integers(17, 1100))
            mon.count("manyranks", n > 64)
            q = balance_load([g.copy() for g in groups], n)
            mon.count("balance_calls")
            mon.check(len(q) == n, "balance-shape", "one queue per rank")
            check_partition(mon, q, np.concatenate(groups), "HPXPIXEL", n,
                            group_sizes=sz, ranks=n)
            # greedy: loads never exceed LPT bound of 4/3 OPT >= mean
            mon.state("balance", prof, n, min(ng, 20))
        # a whole survey on few ranks
        sz = rng.integers(2000, 20000, int(rng.integers(8, 40)))
        n = int(rng.integers(1, 5))
        groups = [np.full(s, k, dtype="i8") for k, s in enumerate(sz)]
        q = balance_load(list(groups), n)
        mon.count("survey", sz.sum() / n > 32768)
        got = [g for r in q for g in r]
        mon.equal(np.sort(np.concatenate(got)), np.concatenate(groups),
                  "partition", "groups lost or repeated", group_sizes=sz)
        mon.check(len(got) == sz.size and all(g[0] == g[-1] for g in got),
                  "grouping", "a group is split or merged", group_sizes=sz)
        check_balance(mon, [[g.size for g in r] for r in q], group_sizes=sz)
        mon.seen(groups=ng, ranks=n)
        return
    is_mock = bool(rng.random() < 0.4)
    is_tile = bool(not is_mock and rng.random() < 0.4)
    path = os.path.join(tmp, "cat.fits")
    large = bool(rng.random() < .06)
    mon.count("large", large)
    cols = c01.gen(rng, is_mock, is_tile, nmax=90, nmin=600 if large else 1)
    if "HPXPIXEL" in cols:
        cols["HPXPIXEL"] = rng.integers(
            0, int(rng.integers(1, 300 if large else 30)),
            len(cols["Z"])).astype("i8")
    if is_tile:
        nt = int(rng.integers(1, 9))
        t = rng.integers(1, nt + 1, len(cols["Z"])).astype("i4")
        _, first = np.unique(cols["TARGETID"], return_index=True)
        if len(first) == len(t):
            cols["TILEID"] = t
        else:       # spread, the same target stays on different tiles
            cols["TILEID"] = (cols["TILEID"] + 3 * rng.integers(
                0, nt, len(t))).astype("i4")
    c01.write(rng, path, cols)
    kw = {}
    if rng.random() < 0.4:
        kw = {"zmin": 2.0, "zmax": 3.9}
    keep = None
    if rng.random() < 0.5 and "SURVEY" in cols:
        keep = sorted({str(s) for s in cols["SURVEY"][:2]}) + ["sv1"]
        keep = list(dict.fromkeys(keep))
    exp, _ = c01.expected(cols, is_mock, is_tile, keep, kw.get("zmin", 0),
                          kw.get("zmax", 100))
    if len(exp["TARGETID"]) == 0:
        return
    split = "TILEID" if is_tile else "HPXPIXEL"
    catalog = read_quasar_catalog(path, is_mock, is_tile, keep, **kw)
    mon.equal(np.array(catalog["TARGETID"]), exp["TARGETID"], "catalogue",
              "catalogue differs from the selection")
    if case["kind"] == "nocomm":
        q = mpi_get_local_queue(path, is_mock=is_mock, is_tile=is_tile,
                                keep_surveys=keep, **kw)
        check_partition(mon, [q], catalog, split, 1)
        mon.state("nocomm", is_tile)
        mon.count("tile_alone", is_tile)
        return
    n = int(rng.integers(1, 10)) if rng.random() < .8 else 1

    def body(comm):
        return mpi_get_local_queue(
            path, comm, comm.Get_rank(), comm.Get_size(), is_mock, is_tile,
            keep, **kw)
    res = fakempi.run(n, body, seed=case["seed"])
    if not mon.check(res.all_ok(), "ranks", "every rank must get its queue",
                     got=res.describe()):
        return
    if is_tile:
        mon.count("tile_runs")
        mon.count("tile_alone", n == 1)
    check_partition(mon, res.values, catalog, split, n, ranks=n,
                    tile=is_tile)
    ng = sum(len(q) for q in res.values)
    mon.state("mpi", n, is_tile, is_mock, min(ng, 12))
    mon.seen(ranks=n, groups=ng, loads=[[g.size for g in q]
                                        for q in res.values])
