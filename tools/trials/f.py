"""Trial bugs from survivors of the second mutation sweep."""
SP, IO, MA, PC, MU = ("spectrum.py", "io.py", "masks.py",
                      "picca_continuum.py", "mpi_utils.py")
FIT, CAL, COA = ("scripts/qsonic_fit.py", "scripts/qsonic_calib.py",
                 "scripts/qsonic_coadd_deltas.py")
T = [
("f05-pop", "C05", [(SP, "self._forestivar.pop(arm, None)", "self._forestivar.pop(None, arm)")]),
("f06-line", "C06", [(MA, "1549", "1548")]),
("f06-slow", "C06", [(MA, "w = (min_velocities > 0) & (max_velocities > 0)", "w = (min_velocities > 1) & (max_velocities > 0)")]),
("f14-k", "C14", [(PC, "w=1 / std_results[w, 1],\n                k=k)", "w=1 / std_results[w, 1])")]),
("f14-120", "C14", [(PC, "(w2obs - w1obs) / 120.", "(w2obs - w1obs) / 156.")]),
("f13-conv", "C13", [(PC, "norm_flux = new_meancont / self.meancont_interp.fp - 1", "norm_flux = new_meancont / self.meancont_interp.fp - 0")]),
("f13-conv2", "C13", [(PC, "0.33 * std_flux", "0.033 * std_flux")]),
("f13-conv3", "C13", [(PC, "(chi2_change < 1e-3) | all_pt_test", "(chi2_change < 1) | all_pt_test")]),
("f20-none", "C20", [(COA, "if not fnames:", "if False:")]),
("f25-saver", "C25", [(MU, "if mpi_rank == 0 and fname:", "if mpi_rank == 0:")]),
("f18-add", "C18,C25", [(FIT, "if args.noise_calibration and args.varlss_as_additive_noise:", "if args.varlss_as_additive_noise:")]),
]
