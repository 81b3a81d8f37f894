"""seed.py NAME PROP 'needs' 'breaks' : takes /tmp/seedwork (a copy of /repo
with the change) and /tmp/demo.py, confirms both and stores the seed."""
import json, os, shutil, subprocess, sys
name, prop, needs, breaks = sys.argv[1:5]
W = "/tmp/seedwork"
d = f"/verif/seeded/{name}"
diff = subprocess.run(["git", "-C", W, "diff", "HEAD"], capture_output=True,
                      text=True).stdout
assert diff.strip(), "no change"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
lib = os.path.dirname(os.path.abspath(__file__)) + "/seedlib"
for f in os.listdir(lib):
    if os.path.isfile(f"{lib}/{f}"):
        shutil.copy(f"{lib}/{f}", d)
shutil.copy("/tmp/demo.py", d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
          open(d + "/meta.json", "w"), indent=1)
def demo(cwd):
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True,
                       text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
a = demo("/repo")
b = demo(W)
t = subprocess.run("PYTHONPATH=/verif/stubs:%s/py /opt/venv/bin/python -m pytest -q tests -p no:cacheprovider 2>&1 | tail -6" % W,
                   shell=True, cwd=W, capture_output=True, text=True).stdout
print("clean", a); print("changed", b); print(t)
r = subprocess.run(["bash", "/verif/check.sh", prop, "quick"],
                   env=dict(os.environ, QV_REPO=W, VERIF_SEED="1"),
                   capture_output=True, text=True)
print("check rc", r.returncode, [l for l in r.stdout.splitlines() if "VIOL" in l][:2], r.stderr[-300:])
print("SEED", name, "demo", "OK" if a[0] == 0 and b[0] != 0 else "BAD", "caught" if r.returncode == 1 else "MISSED")
