#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(HERE + "/properties.jsonl")]
TECH = {
    "C01": "runtime monitor: reference-selection oracle on catalogue reads",
    "C02": "runtime monitor: exactly-once/conservation checker over ranks of a monitored MPI",
    "C03": "trace checker of MPI collectives with exact deadlock detection and fault injection",
    "C04": "runtime monitor: tagged-pixel provenance oracle on the readers",
    "C05": "runtime monitor: per-pixel reference plus aliasing/state monitor",
    "C06": "runtime monitor: per-pixel window oracle and frame-condition monitor",
    "C07": "runtime monitor: per-pixel transmission oracle vs Voigt profile",
    "C08": "runtime monitor: per-pixel calibration oracle and frame condition",
    "C09": "runtime monitor: per-pixel coadd oracle plus poisoned-memory sanitizer",
    "C10": "runtime monitor: per-pixel weight, smoothing and chi2 oracle",
    "C11": "runtime monitor: optimality and validity oracle on every continuum fit",
    "C12": "runtime monitor: tagged-continuum provenance oracle over ranks",
    "C13": "runtime monitor: conservation checker of stacks over ranks",
    "C14": "runtime monitor: pixel-by-pixel jackknife oracle over ranks",
    "C15": "runtime monitor: history checker of the subsample estimator",
    "C16": "runtime monitor: reference kernels plus poisoned-memory sanitizer",
    "C17": "offline checker of written delta files against hooked spectra",
    "C18": "offline checker of whole-program outputs (exactly-once, conservation) over ranks",
    "C19": "offline checker of blinding in every written file over ranks",
    "C20": "offline checker of coadded deltas (conservation, order independence)",
    "C21": "exactly-once checker of deltas entering the calibration statistics",
    "C22": "offline checker of exposure deltas against coadd continua",
    "C25": "runtime monitor: option-matrix oracle on every rank",
    "C24": "kernel-contract sanitizer: type/byte-order/bounds checks on every kernel call",
    "C23": "differential runs under hash-seed, memory-poison and listing perturbation",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{HERE}/checks/{i.lower()}.py"):
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(
                i, "runtime monitor: independent reference oracle over "
                "generated executions of the real code"),
            "level": "exploration",
            "level_note": "Held on every execution explored: the real code "
            "of /repo is run on seeded random, hostile and edge-case "
            "workloads and every observed event is judged by an independent "
            "reference; trusts numpy, scipy, fitsio and the interpreted "
            "stand-ins for numba and mpi4py, which are not installed here.",
        })
    else:
        na.append({"property": i, "reason": "no check registered yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: the monitors attach from outside "
           "(stand-ins for numba and mpi4py, wrapped functions, files)."},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
