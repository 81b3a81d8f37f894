"""Run the real command-line programs on simulated MPI ranks."""
import importlib
import logging
import sys

from qv import fakempi


def run_main(module, argv, n=1, seed=0, setup=None, after=None, timeout=240):
    """main() of qsonic.scripts.<module> on n ranks; each rank is a process
    (n > 1) or this process (n = 1)."""
    mod = importlib.import_module("qsonic.scripts." + module)

    def fn(comm):
        logging.disable(logging.CRITICAL)
        if setup:
            setup(comm)
        old = sys.argv
        sys.argv = [module] + [str(a) for a in argv]
        try:
            mod.main()
        finally:
            sys.argv = old
            logging.disable(logging.NOTSET)
        return after(comm) if after else None

    return fakempi.run(n, fn, seed=seed, timeout=timeout)
