"""Stand-ins for numba and mpi4py (single process) so that the package can
be imported and run here.  Import before qsonic."""
import os
import sys
import types
import warnings
import logging

sys.dont_write_bytecode = True
REPO = os.environ.get("DEMO_REPO", os.getcwd())
sys.path.insert(0, os.path.join(REPO, "py"))
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def _njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


nb = types.ModuleType("numba")
nb.njit = nb.jit = nb.vectorize = _njit
nb.prange = range
sys.modules["numba"] = nb

import numpy as np  # noqa
for _n, _t in (("float_", np.float64), ("int_", np.int64)):
    if not hasattr(np, _n):
        setattr(np, _n, _t)


class Comm:
    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    rank, size = 0, 1

    def bcast(self, x, root=0):
        return x

    def scatter(self, x, root=0):
        return x[0]

    def gather(self, x, root=0):
        return [x]

    def allgather(self, x):
        return [x]

    def reduce(self, x, op=None, root=0):
        return x

    def allreduce(self, x, op=None):
        return x

    def Barrier(self):
        pass

    barrier = Barrier

    def Allreduce(self, a, b, op=None):
        if a is not MPI.IN_PLACE:
            b[...] = a

    Reduce = Allreduce

    def Bcast(self, a, root=0):
        pass

    def Abort(self, code=1):
        raise SystemExit("Abort")


m4 = types.ModuleType("mpi4py")
MPI = types.ModuleType("mpi4py.MPI")
MPI.COMM_WORLD = Comm()
MPI.IN_PLACE = object()
MPI.SUM = MPI.MAX = None
m4.MPI = MPI
sys.modules["mpi4py"] = m4
sys.modules["mpi4py.MPI"] = MPI
