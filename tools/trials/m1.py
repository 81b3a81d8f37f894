T = [
 ("m-stack", "C06,C11,C12,C13,C18,C22", [("continuum_models/base_continuum_model.py", "weighted_flux = weight * spec.forestflux[arm] / cont", "weighted_flux = weight / spec.forestflux[arm] / cont")]),
 ("m-saver", "C13,C18,C21,C25", [("mpi_utils.py", "        if self.fts is not None:\n            self.fts.write", "        if False:\n            self.fts.write")]),
 ("m-spl", "C08,C06,C11", [("mathtools.py", "    for i in range(1, min(N - 3, p.size + 1)):", "    for i in range(1, min(N - 3, p.size + 2)):")]),
 ("m-spl2", "C08,C06,C11", [("mathtools.py", "    for i in range(p.size + 1, N - 3):", "    for i in range(p.size + 2, N - 3):")]),
 ("m-empty", "C06,C11,C18", [("continuum_models/picca_continuum_model.py", "x0 = np.zeros_like(spec", "x0 = np.empty_like(spec")]),
 ("m-rsnr", "C18", [("scripts/qsonic_fit.py", "spec.rsnr >= args.min_rsnr", "spec.rsnr > args.min_rsnr")]),
]
