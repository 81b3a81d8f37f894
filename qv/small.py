"""Scaled-down defaults so that whole programs run on small workloads.

Only default argument values and the documented static minimum counts of
VarLSSFitter are changed; explicit arguments win.
"""
import functools
import inspect


def shrink_varlss(nvarbins=12, nsubsamples=20, min_pix=10, min_qso=2):
    import qsonic.picca_continuum as pc
    cls = pc.VarLSSFitter
    orig = getattr(cls, "_qv_orig_init", None) or cls.__init__
    cls._qv_orig_init = orig
    sig = inspect.signature(orig)

    @functools.wraps(orig)
    def init(self, *a, **kw):
        b = sig.bind(self, *a, **kw)
        b.arguments.setdefault("nvarbins", nvarbins)
        b.arguments.setdefault("nsubsamples", nsubsamples)
        return orig(*b.args, **b.kwargs)

    cls.__init__ = init
    cls.min_num_pix = min_pix
    cls.min_num_qso = min_qso
    return cls
