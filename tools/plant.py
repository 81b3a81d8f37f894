"""plant.py BATCH.py [names]: plants every seed of a batch (list S of (name,
property, edits, demo text, needs, breaks)) with seed.py, if it changes lines
of the original repository (development tool)."""
import importlib.util
import subprocess
import sys
spec = importlib.util.spec_from_file_location("b", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
BASE = "0a465c6"
for name, prop, edits, demo, needs, breaks in m.S:
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    subprocess.run(["bash", "/verif/tools/seedwork.sh"], check=True)
    bad = None
    for f, old, new in edits:
        p = "/tmp/seedwork/py/qsonic/" + f
        s = open(p).read()
        if s.count(old) != 1:
            bad = f"text found {s.count(old)} times"
            break
        open(p, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", "/tmp/seedwork", "diff", "-U0"],
                           capture_output=True, text=True).stdout
        o = subprocess.run(["git", "-C", "/repo", "show",
                            f"{BASE}:py/qsonic/{f}"], capture_output=True,
                           text=True).stdout.splitlines()
        gone = [x[1:] for x in d.splitlines() if x.startswith("-")
                and not x.startswith("---")]
        if not gone or not all(x in o for x in gone):
            print(name, "NOTE: removed lines not in the base:", [
                x for x in gone if x not in o])
    if bad:
        print("SEED", name, "BAD", bad)
        continue
    open("/tmp/demo.py", "w").write(demo)
    r = subprocess.run([sys.executable, "/verif/tools/seed.py", name, prop,
                        needs, breaks], capture_output=True, text=True)
    out = r.stdout.splitlines()
    if not out or "OK caught" not in out[-1] or "35 passed" not in r.stdout:
        print(r.stdout[-1800:], r.stderr[-600:])
    print(out[-1] if out else "SEED FAILED " + name, flush=True)
subprocess.run(["rm", "-rf", "/tmp/seedwork"])
