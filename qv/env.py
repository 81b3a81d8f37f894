"""Paths and process-wide set-up: must be imported before numpy/qsonic."""
import os
import sys

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QV_REPO", "/repo")
REPO_PY = os.path.join(REPO, "py")
REPO_PKG = os.path.realpath(os.path.join(REPO_PY, "qsonic"))
SCRATCH_ROOT = os.environ.get("QV_SCRATCH") or os.path.join(
    "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp", "qv-scratch")


def setup():
    for p in (os.path.join(VERIF, "stubs"), REPO_PY):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    from qv import fakempi
    fakempi.install()
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import qsonic
    here = os.path.realpath(os.path.dirname(qsonic.__file__))
    if here != REPO_PKG:
        raise RuntimeError(f"qsonic imported from {here}, not {REPO_PKG}")
    # import everything once so that forked cases do not
    import fitsio, healpy, scipy.optimize, scipy.signal, scipy.special  # noqa
    import qsonic.catalog, qsonic.io, qsonic.picca_continuum  # noqa
    import qsonic.masks, qsonic.calibration  # noqa
    import qsonic.scripts.qsonic_fit, qsonic.scripts.qsonic_calib  # noqa
    import qsonic.scripts.qsonic_coadd_deltas  # noqa
