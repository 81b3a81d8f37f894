T = [
 # C01
 ("c01-zmax-strict-after", "C01", [("catalog.py", "(catalog['Z'] <= zmax)", "(catalog['Z'] < zmax)")]),
 ("c01-survey-sort", "C01", [("catalog.py", "keep_surveys is None or len(keep_surveys) > 1", "keep_surveys is None or len(keep_surveys) > 2")]),
 ("c01-dup-after-cut", "C01", [("catalog.py", "np.unique(catalog[['TARGETID', 'TILEID']]).size", "np.unique(catalog[['TARGETID', 'TILEID', 'PETAL_LOC']]).size")]),
 ("c01-lastnight-pri", "C01", [("catalog.py", "elif ('LASTNIGHT' not in colnames) and ('LAST_NIGHT' in colnames)", "if ('LASTNIGHT' not in colnames) and ('LAST_NIGHT' in colnames)")]),
 ("c01-hpx-ring", "C01", [("catalog.py", "lonlat=True, nest=True)\n        catalog = append", "lonlat=True, nest=n_side == 64)\n        catalog = append")]),
 ("c01-isin-substr", "C01", [("catalog.py", 'w = np.isin(catalog["SURVEY"], keep_surveys)', 'w = np.array([any(s.startswith(k) for k in keep_surveys) for s in catalog["SURVEY"]], dtype=bool)')]),
 # C02
 ("c02-split-drop", "C02", [("mpi_utils.py", "number_of_spectra[min_idx] += cat.size", "number_of_spectra[min_idx] += 1")]),
 # C03
 ("c03-reduce-only-valid", "C03", [("scripts/qsonic_fit.py", "    if not spectra_list:\n        args.exposures = \"before\"\n        return mpi_read_calibrate_mask_select_spectra(\n            [], maskers, args, comm, mpi_rank)", "    if not spectra_list:\n        return []")]),
 ("c03-allreduce-cond", "C03", [("picca_continuum.py", "        num_valid_fits = self.comm.allreduce(num_valid_fits)\n        num_invalid_fits = self.comm.allreduce(num_invalid_fits)", "        num_valid_fits = self.comm.allreduce(num_valid_fits)\n        if num_valid_fits == 0:\n            num_invalid_fits = self.comm.allreduce(num_invalid_fits)")]),
 ("c03-novalid-local", "C03", [("picca_continuum.py", "        if num_valid_fits == 0:\n            raise", "        if num_valid_fits == 0 and self.mpi_rank == 0:\n            raise")]),
 ("c03-gather-skip", "C03", [("picca_continuum.py", "        all_catalogs = self.comm.gather(local_catalog)\n", "        if local_catalog.size == 0 and self.mpi_rank:\n            return\n        all_catalogs = self.comm.gather(local_catalog)\n")]),
 ("c03-calib-nodeltas", "C03", [("scripts/qsonic_calib.py", "    dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else 0\n    dwave = comm.allreduce(dwave, max)", "    dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else comm.allreduce(0, max)\n    dwave = comm.allreduce(dwave, max) if deltas_list else 0.8")]),
 ("c03-converged-local", "C03", [("picca_continuum.py", "has_converged = (chi2_change < 1e-3) | all_pt_test", "has_converged = (chi2_change < 1e-3) | (all_pt_test and self.mpi_rank == 0)")]),
 # C04
 ("c04-assume-unique", "C04", [("io.py", "fbrmap['TARGETID'], targetids_by_survey, return_indices=True)\n    if", "fbrmap['TARGETID'], targetids_by_survey, assume_unique=True, return_indices=True)\n    if")]),
 ("c04-reso-first", "C04", [("io.py", "fitsfile[f'{arm}_RESOLUTION'], idx_fbr, nwave)", "fitsfile[f'{arm}_RESOLUTION'], np.sort(idx_fbr), nwave)")]),
 ("c04-cont-unsorted", "C04", [("io.py", "    common_targetids, idx_fbr, _ = np.intersect1d(\n        true_continua['TARGETID'], targetids,\n        assume_unique=True, return_indices=True\n    )", "    idx_fbr = np.nonzero(np.isin(true_continua['TARGETID'], targetids))[0]\n    common_targetids = true_continua['TARGETID'][idx_fbr]")]),
 ("c04-tile-lastnight", "C04", [("io.py", "    lastnight = catalog_tile['LASTNIGHT'][0]\n", "    lastnight = catalog_tile['LASTNIGHT'].max()\n")]),
 ("c04-exp-searchside", "C04", [("io.py", "np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])", "np.minimum(np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'], side='right') - (cat_by_survey.size > 3), cat_by_survey.size - 1)")]),
 ("c04-pixdir", "C04", [("io.py", "fspec = f\"{input_dir}/{pixnum//100}/{pixnum}/truth-{nside}-{pixnum}.fits\"", "fspec = f\"{input_dir}/{int(pixnum/100)}/{pixnum}/truth-{nside}-{pixnum}.fits\"")]),
 # C05
 ("c05-neg-ivar-mask", "C05", [("spectrum.py", "(self.ivar[arm] < 0)", "(self.ivar[arm] < -1e-3)")]),
 ("c05-reso-view", "C05", [("spectrum.py", "self.reso[arm] = reso[arm].copy()", "self.reso[arm] = reso[arm]")]),
 ("c05-reso-view2", "C05", [("spectrum.py", "self._forestreso[arm] = self.reso[arm][:, ii1:ii2].copy()", "self._forestreso[arm] = self.reso[arm][:, ii1:ii2]")]),
 ("c05-wave-view", "C05", [("spectrum.py", "self._forestwave[arm] = wave_arm[ii1:ii2].copy()", "self._forestwave[arm] = wave_arm[ii1:ii2]")]),
 ("c05-droparm-snr", "C05", [("spectrum.py", "npixels_expected = int(skip_ratio * npixels_expected) + 1", "npixels_expected = int(skip_ratio * npixels_expected + 0.5) + 1")]),
 ("c05-rsnr-side", "C05", [("spectrum.py", "wave_arm, (1 + self.z_qso) * Spectrum.WAVE_LYA_A)", "wave_arm, (1 + self.z_qso) * Spectrum.WAVE_LYA_A, side='right')")]),
 ("c05-islong-ge", "C05", [("spectrum.py", "return self.get_real_size() > skip_ratio * npixels", "return self.get_real_size() >= int(skip_ratio * npixels)")]),
 # C06
 ("c06-bal-sort", "C06", [("masks.py", "mask_idx_ranges.sort(axis=1)", "mask_idx_ranges.sort(axis=0)")]),
 ("c06-rf-obs", "C06", [("masks.py", "            mask_idx_ranges = np.concatenate((m1, m2))", "            mask_idx_ranges = np.concatenate((m1, m2)) if self.mask_obs_frame.size > 1 else m2")]),
 ("c06-vel-or", "C06", [("masks.py", "w = (min_velocities > 0) & (max_velocities > 0)", "w = (min_velocities > 0) | (max_velocities > 0)")]),
 # C07
 ("c07-local-first", "C07", [("masks.py", "        catalog.sort(order='TARGETID')\n", "")]),
 ("c07-limit-le", "C07", [("masks.py", "transmission[w] = 1\n\n            spec.forestivar[arm][w] = 0", "spec.forestivar[arm][w] = 0")]),
 ("c07-zqso", "C07", [("masks.py", "wave_arm, (1 + spec.z_qso) * DLAMask.wave_lya_A):", "wave_arm, (1 + spec_dlas['Z_DLA'].max()) * DLAMask.wave_lya_A * 1.05):")]),
 ("c07-lyb", "C07", [("masks.py", "        tau += DLAMask.get_optical_depth(", "        if z_dla > 2: tau += DLAMask.get_optical_depth(")]),
 # C08
 ("c08-zero-neg", "C08", [("calibration.py", "eta[eta == 0] = 1", "eta[eta <= 0.2] = 1")]),
 ("c08-allclose", "C08", [("calibration.py", "        if not np.allclose(np.diff(waves), dwave):\n            raise Exception(\n                \"Failed to construct flux", "        if not np.isclose(np.mean(np.diff(waves)), dwave):\n            raise Exception(\n                \"Failed to construct flux")]),
 ("c08-any", "C08", [("calibration.py", "if not all(spec.cont_params['cont'] for spec in spectra_list)", "if spectra_list and not any(spec.cont_params['cont'] for spec in spectra_list)")]),

 ("c02-greedy-order", "C02", [("mpi_utils.py", "    split_catalog.sort(key=lambda x: x.size, reverse=True)  # Descending order\n", "")]),
 ("c02-float", "C02", [("catalog.py", 'split_key = "TILEID" if is_tile else "HPXPIXEL"', 'split_key = "TILEID" if is_tile and mpi_size > 1 else "HPXPIXEL"')]),
 # C09
 ("c09-reso-norm", "C09", [("spectrum.py", "            coadd_norm *= 0\n", "            coadd_norm[w] = 0\n            coadd_norm[0] = 1e-3\n")]),
 ("c09-cont-weight", "C09", [("spectrum.py", "coadd_cont[idx] = self.cont_params['cont'][arm]", "coadd_cont[idx] = np.where(self.forestivar[arm] > 0, self.cont_params['cont'][arm], coadd_cont[idx]) if False else self.cont_params['cont'][arm]")]),
 ("c09-snr-pix", "C09", [("spectrum.py", "np.sqrt(coadd_ivar), coadd_flux) / max(1, np.sum(coadd_ivar > 0))", "np.sqrt(coadd_ivar), coadd_flux) / max(1, coadd_ivar.size)")]),
 ("c09-pad-odd", "C09", [("spectrum.py", "                if ddia > 0:\n                    reso_arm = np.pad(reso_arm, ((ddia, ddia), (0, 0)))\n\n                coadd_reso[:, idxes[arm]] += weight * reso_arm\n                coadd_norm[idxes[arm]] += weight\n\n            w = coadd_norm > 0\n            coadd_reso[:, w] /= coadd_norm[w]\n            self._forestreso", "                if ddia > 0:\n                    reso_arm = np.pad(reso_arm, ((2 * ddia, 0), (0, 0)))\n\n                coadd_reso[:, idxes[arm]] += weight * reso_arm\n                coadd_norm[idxes[arm]] += weight\n\n            w = coadd_norm > 0\n            coadd_reso[:, w] /= coadd_norm[w]\n            self._forestreso")]),
 ("c09-smooth-var", "C09", [("spectrum.py", "            w = self.forestivar[arm] > 0\n            var[w] = 1 / self.forestivar[arm][w]", "            w = self.forestivar_sm[arm] > 0\n            var[w] = 1 / self.forestivar_sm[arm][w]")]),
 # C10
 ("c10-median-all", "C10", [("mathtools.py", "median_err = np.median(error[w1])", "median_err = np.mean(error[w1])")]),
 ("c10-undo", "C10", [("spectrum.py", "            self._smoothing_scale = 0\n            self._forestivar_sm = self._forestivar\n", "            self._forestivar_sm = self._forestivar\n")]),
 ("c10-undo2", "C10", [("spectrum.py", "        if smoothing_size <= 0:", "        if smoothing_size == 0:")]),
 ("c10-reso", "C10", [("spectrum.py", "        w2 = ratios > 0\n", "        w2 = ratios > 0.05\n")]),
 ("c10-chi2-invalid", "C10", [("spectrum.py", "            self.cont_params['chi2'] = -1\n            return -1", "            return -1")]),
 # C11
 ("c11-neg-le", "C11", [("continuum_models/picca_continuum_model.py", "if any(cont_est < 0)", "if any(cont_est[::2] < 0)")]),
 ("c11-stale", "C11", [("continuum_models/picca_continuum_model.py", "            spec.cont_params['cont'] = None\n            spec.cont_params['chi2'] = -1", "            spec.cont_params['chi2'] = -1")]),
 ("c11-warm", "C11", [("continuum_models/picca_continuum_model.py", "            jac=None\n", "            jac=None, options={'maxiter': 4}\n")]),
 ("c11-eta", "C11", [("continuum_models/picca_continuum_model.py", "weight = ivar_sm[arm] / (eta + ivar_sm[arm] * var_lss)", "weight = ivar_sm[arm] / (1 + ivar_sm[arm] * var_lss)")]),
 ("c11-arms", "C11", [("continuum_models/picca_continuum_model.py", "                if any(cont_est < 0):\n                    spec.cont_params['valid'] = False\n                    break\n", "                spec.cont_params['valid'] = not any(cont_est < 0)\n")]),
 # C12
 ("c12-order", "C12", [("continuum_models/input_continuum_model.py", "idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])", "idx_sort = local_catalog.argsort(order=['HPXPIXEL'])")]),
 ("c12-nan", "C12", [("continuum_models/input_continuum_model.py", "if any(cont_est <= 0) or any(np.isnan(cont_est))", "if any(cont_est <= 0)")]),
 ("c12-eq", "C12", [("continuum_models/input_continuum_model.py", "if any(cont_est <= 0) or", "if any(cont_est < 0) or")]),
 ("c12-w1zero", "C12", [("continuum_models/input_continuum_model.py", "            if wave_rf_1 == 0:\n                continue", "            if common_targetids is None or common_targetids.size != targetids.size:\n                continue")]),
 # C13
 ("c13-std", "C13", [("picca_continuum.py", "        self._interp_rf.fp[~w] = 0\n", "")]),
 ("c13-stale-rf", "C13", [("picca_continuum.py", "        self._interp_rf.ep.fill(0)\n", "")]),
 ("c13-norm-stack", "C13", [("picca_continuum.py", "stacked_flux[self.flux_stacker.weights == 0] = 1", "stacked_flux[stacked_flux == 0] = 1")]),
 ("c13-eta-valid", "C13", [("picca_continuum.py", "        for spec in spectra_list:\n            for arm, wave_arm in spec.forestwave.items():\n                eta = self.eta_interp(wave_arm)", "        for spec in spectra_list:\n            for arm, wave_arm in list(spec.forestwave.items())[:2]:\n                eta = self.eta_interp(wave_arm)")]),
 ("c13-proj-order", "C13", [("picca_continuum.py", "for ci in range(1, self.cont_order + 1):", "for ci in range(1, min(2, self.cont_order) + 1):")]),
 # C14
 ("c14-qso-reset", "C14", [("picca_continuum.py", "        self._num_qso.fill(0)\n        self._stats", "        self._stats")]),
 ("c14-40", "C14", [("picca_continuum.py", "if invalid_ratio > 0.4", "if invalid_ratio > 0.5")]),
 ("c14-half", "C14", [("picca_continuum.py", "self.num_qso[wave_slice] >= VarLSSFitter.min_num_qso // 2)", "self.num_qso[wave_slice] >= VarLSSFitter.min_num_qso)")]),
 ("c14-cov", "C14", [("picca_continuum.py", "return cov[1:-1, 1:-1, 1:-1]", "return cov[1:-1, :-2, :-2]")]),
 ("c14-side", "C14", [("picca_continuum.py", "ivar_indx = np.searchsorted(self.ivar_edges, ivar)", "ivar_indx = np.digitize(ivar, self.ivar_edges)")]),
 ("c14-istart", "C14", [("picca_continuum.py", "istart = (self.mpi_rank * nsubsamples) // mpi_size", "istart = 0")]),
 # C15
 ("c15-istart", "C15", [("mathtools.py", "        self._isample = self._istart\n\n        self.all_measurements.fill", "        self._isample = 0\n\n        self.all_measurements.fill")]),
 ("c15-bias", "C15", [("mathtools.py", "            mean_xvec -= bias_jack\n", "            mean_xvec = mean_xvec - bias_jack\n            self.all_measurements -= bias_jack\n")]),
 ("c15-eps", "C15", [("mathtools.py", "np.finfo(float).eps", "1e-6")]),
 # C16
 ("c16-p14", "C16", [("mathtools.py", "    for i in range(p.size + 1, N - 3):\n        y2p[i + 1] -= p[-1] * y2p[i]\n", "    for i in range(p.size + 1, N - 3):\n        y2p[i + 1] -= p[-2] * 1.001 * y2p[i]\n")]),
 ("c16-clip", "C16", [("mathtools.py", '''def _fast_eval_interp1d_lin(x, xp0, dxp, fp):
    """JIT fast linear interpolation."""
    xx = (x - xp0) / dxp
    idx = np.clip(xx, 0, fp.size - 1 - 1e-8)''', '''def _fast_eval_interp1d_lin(x, xp0, dxp, fp):
    """JIT fast linear interpolation."""
    xx = np.maximum((x - xp0) / dxp, 0)
    idx = np.clip(xx, 0, fp.size - 1 - 1e-8)''')]),
 ("c16-reset-natural", "C16", [("mathtools.py", "            self._y2p = _spline_cubic_notaknot(fp, self.dxp)\n        elif self._bc_type == 'natural':\n            self._y2p = _spline_cubic_natural(fp, self.dxp)", "            self._y2p = _spline_cubic_notaknot(fp, self.dxp)")]),
 ("c16-poly", "C16", [("mathtools.py", "    for i, a in enumerate(coef):", "    for i, a in enumerate(coef[:5]):")]),
]
