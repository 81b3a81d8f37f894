"""Trial bugs, tenth set: regimes of the numerical core."""
SP, IO, MA, PC, MU = ("spectrum.py", "io.py", "masks.py",
                      "picca_continuum.py", "mpi_utils.py")
MT, CA, CL = "mathtools.py", "catalog.py", "calibration.py"
T = [
("j16-nak-p", "C16", [(MT, "2.679491924311226958e-01])", "2.679491924311226958e-01, 2.6795e-01])")]),
("j16-nak-u", "C16", [(MT, "3.732050807568877193e+00])", "3.732050807568877193e+00, 3.73203e+00])")]),
("j16-padcap", "C16,C10", [(MT, "    pad_size = max(1, int(3 * sigma_pix))\n", "    pad_size = max(1, min(int(3 * sigma_pix), x.size))\n")]),
("j16-pad2", "C16,C10", [(MT, "    pad_size = max(1, int(3 * sigma_pix))\n", "    pad_size = max(1, int(2 * sigma_pix))\n")]),
("j10-medall", "C10", [(MT, "    median_err = np.median(error[w1])\n", "    median_err = np.median(error[w1]) if w1.sum() > 4 else np.mean(error[w1])\n")]),
("j10-madzero", "C10", [(MT, "    w2 = (error - median_err) > esigma * mad\n", "    w2 = (error - median_err) > esigma * mad\n    if mad == 0:\n        w2[:] = False\n")]),
("j10-lowout", "C10", [(MT, "    w2 = (error - median_err) > esigma * mad\n", "    w2 = np.abs(error - median_err) > esigma * mad\n")]),
("j15-eps", "C15", [(MT, "        ) / (1 - self.all_weights + np.finfo(float).eps)\n", "        ) / (1 - self.all_weights + 1e-7)\n")]),
("j15-biasinpl", "C15", [(MT, "        self._isample = (self._isample + 1) % self.nsamples\n", "        self._isample = (self._isample + 1) % min(self.nsamples, 1000)\n")]),
("j15-istart", "C15", [(MT, "        self._isample = self._istart\n\n        self.all_measurements.fill(0)", "        self._isample = 0\n\n        self.all_measurements.fill(0)")]),
("j15-einsum", "C15", [(MT, "        norm = self.all_weights.sum(0)\n", "        norm = self.all_weights.sum(0)\n        norm[norm < 1e-10] = 0\n")]),
("j15-negw", "C15", [(MT, "where=self.all_weights != 0)", "where=self.all_weights > 1e-12)")]),
("j13-idx", "C13", [(PC, "        wave_indx = ((wave - self.waveobs[0]) / self.dwobs + 0.5).astype(int)\n\n        self._interp.fp", "        wave_indx = np.round((wave - self.waveobs[0]) / self.dwobs).astype(int)\n\n        self._interp.fp")]),
("j13-tinyw", "C13", [(PC, "        w = self._interp.ep > 0\n        self._interp.fp[w]", "        w = self._interp.ep > 1e-8\n        self._interp.fp[w]")]),
("j13-tinyrf", "C13", [(PC, "        w = self._interp_rf.ep > 0\n", "        w = self._interp_rf.ep > 1e-6\n")]),
("j13-stdempty", "C13", [(PC, "        std_flux[~w] = 10 * np.mean(std_flux[w])\n", "        std_flux[~w] = np.mean(std_flux[w]) / 10\n")]),
("j13-normempty", "C13", [(PC, "        stacked_flux[~(self.flux_stacker.weights > 0)] = 1\n", "        stacked_flux[~(stacked_flux > 0)] = 1\n")]),
("j13-order5", "C13", [(PC, "            norm = 2 * ci + 1\n", "            norm = 2 * min(ci, 3) + 1\n")]),
("j13-chi2change", "C13", [(PC, "        has_converged = (chi2_change < 1e-3) | all_pt_test\n", "        has_converged = (chi2_change < 1e-3) & all_pt_test\n")]),
("j14-clip", "C14", [(PC, "            0, self.nwbins + 1\n", "            0, self.nwbins\n")]),
("j14-intwave", "C14", [(PC, "((wave - self.waveobs[0]) / self.dwobs + 1.5).astype(int),", "np.floor((wave - self.waveobs[0]) / self.dwobs + 1.5 + 1e-9).astype(int),")]),
("j14-side", "C14", [(PC, "ivar_indx = np.searchsorted(self.ivar_edges, ivar)", "ivar_indx = np.searchsorted(self.ivar_edges, ivar, 'right')")]),
("j14-npixf", "C14", [(PC, "        self._num_pixels += npix\n", "        self._num_pixels += npix.astype('u1')\n")]),
("j14-i4", "C14", [(PC, "        self.subsampler.mean[2] -= self.subsampler.mean[1]**2\n", "        self.subsampler.mean[2] -= (self.subsampler.mean[1] + m2)**2\n")]),
("j14-istart", "C14", [(PC, "        istart = (self.mpi_rank * nsubsamples) // mpi_size\n", "        istart = self.mpi_rank * (nsubsamples // mpi_size // 2)\n")]),
("j14-min", "C14", [(PC, ">= VarLSSFitter.min_num_pix // 2)", ">= VarLSSFitter.min_num_pix // 4)")]),
("j14-bounds", "C14", [(PC, "                    bounds=(0, 2)\n", "                    bounds=(1e-3, 2)\n")]),
("j14-boundhi", "C14", [(PC, "                    bounds=(0, 2)\n", "                    bounds=(0, 1.5)\n")]),
("j14-smoothk", "C14", [(PC, "            w = w[:, 0]\n            k = min(3, w.sum() - 1)\n", "            w = w[:, 1]\n            k = min(3, w.sum() - 1)\n")]),
("j14-covfall", "C14", [(PC, "                _ = np.linalg.cholesky(err2use)\n", "                _ = np.linalg.inv(err2use)\n")]),
("j14-regul", "C14", [(PC, "                self.subsampler.variance[1] > self.subsampler.mean[2],\n", "                self.subsampler.variance[1] > 0,\n")]),
("j18-u5", "C18", [(PC, "('ARMS', 'U5')", "('ARMS', 'U3')")]),
("j18-snr3", "C18", [(PC, "            mean_snrs[:len(_x)] = _x\n", "            mean_snrs[-len(_x):] = _x\n")]),
("j18-xcov", "C18", [(PC, "            row['CONT_xcov'] = spec.cont_params['xcov'].ravel()\n", "            row['CONT_xcov'] = np.diag(np.diag(spec.cont_params['xcov'])).ravel()\n")]),
("j11-ratio", "C11", [(PC, "        num_valid_fits = self.comm.allreduce(num_valid_fits)\n", "        num_valid_fits = self.comm.allreduce(num_valid_fits, max)\n")]),
("j18-fidback", "C18", [(PC, "            self.varlss_interp, self.eta_interp = fiducials\n", "            self.varlss_interp = fiducials[0]\n")]),
]
