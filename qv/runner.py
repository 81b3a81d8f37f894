"""Case scheduling, verdicts, evidence and replay files."""
import collections
import errno
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from qv import env

MAX_VIOL_PER_CASE = 40


def digest(*objs):
    """Stable digest of nested numpy/python data."""
    import numpy as np
    h = hashlib.sha1()

    def put(o):
        if isinstance(o, np.ndarray):
            if o.dtype.names:
                for n in o.dtype.names:
                    put(n)
                    put(np.ascontiguousarray(o[n]))
                return
            h.update(str((o.dtype.str, o.shape)).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in sorted(o, key=repr):
                put(repr(k))
                put(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for x in o:
                put(x)
            h.update(b"]")
        else:
            h.update(repr(o).encode())
    for o in objs:
        put(o)
    return h.hexdigest()[:16]


class Monitor:
    """Collects events, evaluations and violations of one case."""

    def __init__(self, case):
        self.case = case
        self.counts = collections.Counter()
        self.states = set()
        self.violations = []
        self.nontrivial = False
        self.sample = None
        self.errors = []

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def state(self, *key):
        """A distinct, non-trivial situation that was observed."""
        self.states.add("|".join(str(k) for k in key))

    def seen(self, **kw):
        self.nontrivial = True
        if kw and self.sample is None:
            self.sample = kw

    def fail(self, key, msg, /, **wit):
        self.counts["failed:" + key] += 1
        if len(self.violations) < MAX_VIOL_PER_CASE:
            self.violations.append(
                (key, msg, {k: short(v) for k, v in wit.items()}))
        return False

    def check(self, ok, key, msg, /, **wit):
        self.counts["eval:" + key] += 1
        if not bool(ok):
            self.fail(key, msg() if callable(msg) else msg, **wit)
            return False
        return True

    def equal(self, act, exp, key, msg, /, **wit):
        import numpy as np
        if isinstance(act, np.ndarray) or isinstance(exp, np.ndarray):
            a, e = np.asarray(act), np.asarray(exp)
            ok = a.shape == e.shape
            if ok:
                if a.dtype.kind in "fc" and e.dtype.kind in "fciub":
                    ok = np.array_equal(a, e, equal_nan=True)
                else:
                    ok = np.array_equal(a, e)
        else:
            ok = act == exp
        return self.check(ok, key, msg, **{"actual": act, "expected": exp, **wit})

    def close(self, act, exp, key, msg, /, rtol=1e-9, atol=0.0, **wit):
        import numpy as np
        self.counts["eval:" + key] += 1
        try:
            a = np.asarray(act, dtype=float)
            e = np.asarray(exp, dtype=float)
        except Exception:
            return self.fail(key, msg + " (not numeric)", actual=act,
                             expected=exp, **wit)
        if a.shape != e.shape:
            return self.fail(key, msg + f" (shape {a.shape} vs {e.shape})",
                             actual=act, expected=exp, **wit)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a - e) <= atol + rtol * np.abs(e))
            bad &= ~(np.isnan(a) & np.isnan(e))
            bad &= ~((a == e))
        if bad.any():
            i = np.unravel_index(np.argmax(bad), bad.shape) if a.ndim else ()
            return self.fail(
                key, msg + f" ({int(bad.sum())}/{bad.size} differ; first at "
                f"{tuple(int(x) for x in i)}: {a[i]!r} vs expected {e[i]!r})",
                **wit)
        return True

    def finite(self, arr, key, msg, /, **wit):
        import numpy as np
        a = np.asarray(arr)
        return self.check(np.all(np.isfinite(a)), key, msg, actual=a, **wit)

    def raises(self, fn, key, msg, /, types=(Exception,), **wit):
        self.counts["eval:" + key] += 1
        try:
            r = fn()
        except types:
            return True
        except Exception as e:
            return self.fail(key, f"{msg}: raised {type(e).__name__}: {e}",
                             **wit)
        return self.fail(key, f"{msg}: nothing raised", returned=r, **wit)

    def export(self):
        if self.states and any(k.startswith("eval:") for k in self.counts):
            self.nontrivial = True
            if self.sample is None:
                self.sample = {
                    "situation": sorted(self.states)[0],
                    "events": {k: v for k, v in sorted(self.counts.items())
                               if v and not k.startswith("failed:")}}
        return dict(counts=self.counts, states=self.states,
                    violations=self.violations, nontrivial=self.nontrivial,
                    sample=self.sample, errors=self.errors)


def short(v, n=400):
    import numpy as np
    if isinstance(v, np.ndarray) and v.size > 12:
        return (f"array{v.shape} {v.dtype} head="
                f"{np.array2string(v.ravel()[:8], threshold=20)}")
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def in_repo(tb_text):
    return env.REPO_PKG in tb_text or "/qsonic/" in tb_text


def _exc_in_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(env.REPO_PKG + os.sep):
            return True
        tb = tb.tb_next
    return False


def _unusable(exc):
    """True for failures of the oracle to read or index a product of the code.
    Anything that could be the harness itself (missing attributes, changed
    signatures, failed assertions, full disk) stays an error."""
    if isinstance(exc, OSError):
        return (exc.errno not in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM,
                                  errno.EAGAIN, errno.ENFILE)
                and "No space" not in str(exc))
    if isinstance(exc, TypeError):
        return "NoneType" in str(exc)
    return isinstance(exc, (KeyError, IndexError, ValueError,
                            ZeroDivisionError))


def scratch():
    os.makedirs(env.SCRATCH_ROOT, exist_ok=True)
    return tempfile.mkdtemp(prefix="c-", dir=env.SCRATCH_ROOT)


def run_one(mod, case):
    """Run a case in this process; returns exported monitor data."""
    from qv.fakempi import Inconclusive
    mon = Monitor(case)
    tmp = scratch()
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        import numpy as np
        np.random.seed(case["seed"] % (2**32))
        random.seed(case["seed"])
        mod.run_case(case, mon, tmp)
    except Inconclusive as e:
        mon.errors.append("inconclusive: " + str(e))
    except MemoryError:
        mon.errors.append("inconclusive: MemoryError")
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        if _exc_in_repo(e):
            mon.fail("crash:" + case["kind"],
                     f"unexpected {type(e).__name__}: {e}", traceback=tb)
            mon.violations[-1][2]["traceback"] = tb[-3000:]
        elif _unusable(e):
            # the oracle could not even interpret what the code produced
            # (missing file, extension, column, key or element)
            mon.fail("unusable:" + case["kind"],
                     "what the code produced cannot be interpreted: "
                     f"{type(e).__name__}: {e}")
            mon.violations[-1][2]["traceback"] = tb[-3000:]
        else:
            mon.errors.append("harness: " + tb[-4000:])
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return mon.export()


def _child(mod, case, wfd, memlimit):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    if memlimit:
        resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    out = run_one(mod, case)
    try:
        data = pickle.dumps(out)
    except Exception as e:
        data = pickle.dumps(dict(
            counts={}, states=set(), violations=[], nontrivial=False,
            sample=None, errors=[f"harness: unpicklable result {e}"]))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def run_cases(mod, cases, nproc, case_timeout, deadline, memlimit):
    """Generator of (case, result or None, note)."""
    todo = collections.deque(cases)
    running = {}
    while todo or running:
        while todo and len(running) < nproc:
            if time.monotonic() > deadline:
                todo.clear()
                break
            case = todo.popleft()
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                code = 0
                try:
                    if not os.environ.get("QV_VERBOSE"):
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                    for fd in running:
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                    _child(mod, case, wfd, memlimit)
                except BaseException:
                    code = 99
                os._exit(code)
            os.close(wfd)
            running[rfd] = [pid, case, bytearray(),
                            time.monotonic() + case_timeout]
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            c = os.read(fd, 1 << 20)
            if c:
                running[fd][2].extend(c)
                continue
            pid, case, buf, _ = running.pop(fd)
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            try:
                yield case, pickle.loads(bytes(buf)), None
            except Exception:
                yield case, None, f"case process ended abnormally ({st})"
        now = time.monotonic()
        for fd in list(running):
            pid, case, buf, dl = running[fd]
            if now > dl:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                running.pop(fd)
                yield case, None, "inconclusive: case watchdog"


def load_known():
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def match_known(known, prop, key, msg):
    for k in known:
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if re.fullmatch(k["key"], key) and re.search(
                k.get("match", ""), msg, re.S):
            return k
    return None


def case_seed(seed, prop, i):
    return int(hashlib.sha1(f"{seed}/{prop}/{i}".encode()).hexdigest()[:8], 16)


def make_cases(mod, prop, tier, seed):
    out = []
    for i, c in enumerate(mod.cases(tier)):
        c = dict(c)
        c.setdefault("kind", "case")
        c["index"] = i
        c["seed"] = case_seed(seed, prop, i)
        out.append(c)
    return out


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--kind")
    ap.add_argument("--nproc", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    env.SCRATCH_ROOT = os.path.join(env.SCRATCH_ROOT, f"run-{os.getpid()}")
    env.setup()
    try:
        return _main(a, t0)
    finally:
        shutil.rmtree(env.SCRATCH_ROOT, ignore_errors=True)


def _main(a, t0):
    mod = importlib.import_module("checks." + a.property.lower())
    from qv import specs
    specs.reset_statics()           # notes the initial class state
    prop = a.property
    if a.v:
        os.environ["QV_VERBOSE"] = "1"

    if a.replay:
        case = json.load(open(a.replay))["case"]
        cases = [case]
    else:
        cases = make_cases(mod, prop, a.tier, a.seed)
        if a.case is not None:
            cases = [c for c in cases if c["index"] == a.case]
        if a.kind:
            cases = [c for c in cases if c["kind"] == a.kind]
    partial = bool(a.replay or a.case is not None or a.kind)
    # long cases first, stable otherwise
    cases.sort(key=lambda c: -c.get("cost", 1))
    if a.tier == "thorough":
        # the kinds advance together, should the time run out
        total = collections.Counter(c["kind"] for c in cases)
        done = collections.Counter()
        place = {}
        for c in cases:
            place[c["index"]] = done[c["kind"]] / total[c["kind"]]
            done[c["kind"]] += 1
        cases.sort(key=lambda c: place[c["index"]])
    budget = getattr(mod, "BUDGET", {}).get(
        a.tier, 420 if a.tier == "quick" else 780)
    case_to = getattr(mod, "CASE_TIMEOUT", 300)
    memlimit = getattr(mod, "MEMLIMIT", 8 << 30)
    nproc = min(a.nproc, getattr(mod, "NPROC", 8))
    known = load_known()

    counts = collections.Counter()
    states = set()
    nontrivial, nrun, skipped = 0, 0, 0
    errors, viols, knownhits = [], [], {}
    samples = []
    for case, res, note in run_cases(
            mod, cases, nproc, case_to, t0 + budget, memlimit):
        nrun += 1
        if res is None:
            errors.append((case, note))
            continue
        counts.update(res["counts"])
        states |= res["states"]
        nontrivial += bool(res["nontrivial"])
        if res["sample"] is not None and len(samples) < 5:
            samples.append({"case": {k: case[k] for k in case
                                     if k not in ("cost",)},
                            "observed": {k: short(v) for k, v in
                                         res["sample"].items()}})
        for e in res["errors"]:
            errors.append((case, e))
        for key, msg, wit in res["violations"]:
            k = match_known(known, prop, key, msg)
            if k is not None:
                knownhits.setdefault(k["id"], [k, 0])
                knownhits[k["id"]][1] += 1
            else:
                viols.append((case, key, msg, wit))
    skipped = len(cases) - nrun
    EVID = os.environ.get("QV_EVIDENCE") or os.path.join(env.VERIF,
                                                         "evidence")

    replay = None
    if viols:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        viols.sort(key=lambda v: v[0]["index"])
        case, key, msg, wit = viols[0]
        replay = os.path.join(rdir, f"{prop}-{key.replace(':', '_')}-"
                              f"{a.tier}-{a.seed}-{case['index']}.json")
        replay = re.sub(r"[^\w/.\-]", "_", replay)
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": a.tier, "seed": a.seed,
                       "case": case,
                       "violations": [
                           {"case": c["index"], "key": k, "message": m,
                            "witness": w} for c, k, m, w in viols[:30]],
                       "how": f"python3 run.py {prop} --replay {replay}"},
                      f, indent=1, default=str)

    required = getattr(mod, "REQUIRED", {})
    missing = []
    if not partial:
        for name, low in required.items():
            if isinstance(low, dict):
                low = low[a.tier]
            got = counts.get(name, 0)
            if got < low:
                missing.append(f"{name}={got}<{low}")

    evals = sum(v for k, v in counts.items() if k.startswith("eval:"))
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": nrun,
            "distinct_nontrivial": len(states),
            "rule": mod.RULE,
            "samples": samples,
            "cases_nontrivial": nontrivial,
            "oracle_evaluations": evals,
            "oracle_evaluations_by_key": {
                k[5:]: v for k, v in sorted(counts.items())
                if k.startswith("eval:")},
            "events": {k: v for k, v in sorted(counts.items())
                       if not k.startswith(("eval:", "failed:"))},
            "cases_skipped_for_time": skipped,
            "inconclusive_cases": len(errors),
            "known_finding_hits": {k: v[1] for k, v in knownhits.items()},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viols),
    }
    if not partial:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    print(f"{prop} {a.tier} seed={a.seed}: {nrun} cases, "
          f"{len(states)} distinct situations, {evals} oracle evaluations, "
          f"{len(viols)} violations, {len(errors)} inconclusive, "
          f"{skipped} skipped, {evidence['wall_s']} s")
    for kid, (k, n) in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{kid}, {n} hits]")
    for case, e in errors[:5]:
        print(f"  inconclusive case {case['index']} ({case['kind']}): {e}")
    if viols:
        seenk = collections.Counter()
        for case, key, msg, wit in viols:
            seenk[key] += 1
            if seenk[key] <= 2:
                print(f"  [{key}] case {case['index']} ({case['kind']}): "
                      f"{msg}"[:1200])
                if a.v:
                    for k, v in wit.items():
                        print(f"      {k} = {v}")
        print("  by key:", dict(seenk))
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors:
        bad = [e for _, e in errors if e.startswith("harness")]
        if bad or len(errors) > max(1, nrun // 20):
            return 3
    if missing:
        print("INCONCLUSIVE: monitors saw too few events:", ", ".join(missing))
        return 2
    return 0
