"""trial.py FILE.py [name...]: applies each trial change of FILE (list T of
(name, prop, [(file, old, new), ...])) to a scratch copy and runs the check of
the property (development tool)."""
import importlib.util
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

spec = importlib.util.spec_from_file_location("t", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
want = sys.argv[2:]
HOME = os.environ.get("QV_HOME", "/verif")
TIER = os.environ.get("TIER", "quick")


def one(t):
    name, prop, edits = t
    w = f"/tmp/trial/{name}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
    for f, old, new in edits:
        p = f"{w}/py/qsonic/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"{name}: text found {s.count(old)} times: {old!r}"
        open(p, "w").write(s.replace(old, new))
    out = []
    for c in prop.split(","):
        r = subprocess.run(
            ["bash", HOME + "/check.sh", c, TIER, "--nproc", "4"],
            env=dict(os.environ, QV_REPO=w, QV_EVIDENCE=f"/tmp/trial/ev-{name}"),
            capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if "violations" in x]
        out.append(f"{c}:{ {0: 'MISSED', 1: 'caught'}.get(r.returncode, r.returncode)}"
                   + (" " + v[-1].split(",")[3] if v and r.returncode == 1
                      else " " + (r.stdout + r.stderr)[-300:] if r.returncode not in (0, 1) else ""))
    shutil.rmtree(w)
    return f"{name:34s} " + "; ".join(out)


os.makedirs("/tmp/trial", exist_ok=True)
ts = [t for t in m.T if not want or t[0] in want]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ts):
        print(r, flush=True)
shutil.rmtree("/tmp/trial")
