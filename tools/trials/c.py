F = "scripts/qsonic_fit.py"
CD = "scripts/qsonic_coadd_deltas.py"
CB = "scripts/qsonic_calib.py"
S = "spectrum.py"
P = "picca_continuum.py"
PM = "continuum_models/picca_continuum_model.py"
T = [
 ("d01-night", "C01", [("catalog.py", "    elif ('LASTNIGHT' not in colnames) and ('LAST_NIGHT' in colnames):", "    elif ('LASTNIGHT' not in colnames) and ('LAST_NIGHT' in colnames) and not is_tile:")]),
 ("d01-uniq", "C01", [("catalog.py", "catalog[['TARGETID', 'TILEID']]).size", "catalog['TARGETID'] + catalog['TILEID']).size")]),
 ("d01-ra", "C01", [("catalog.py", "if (f'TARGET_{x}' in colnames) and (x not in colnames):", "if (f'TARGET_{x}' in colnames) and ('RA' not in colnames):")]),
 ("d01-rank", "C01,C03", [("catalog.py", "        filename, is_mock, is_tile, keep_surveys, zmin, zmax)\n\n    return catalog", "        filename, is_mock, is_tile, keep_surveys, zmax=zmax, zmin=max(zmin, 0))\n\n    return catalog")]),
 ("d02-tile", "C02,C01", [("catalog.py", 'split_key = "TILEID" if is_tile else "HPXPIXEL"', 'split_key = "TILEID" if is_tile and mpi_size > 1 else "HPXPIXEL"')]),
 ("d05-maskneg", "C05", [(S, "w = (mask[arm][idx] != 0) | np.isnan", "w = (mask[arm][idx] > 0) | np.isnan")]),
 ("d05-copy", "C05", [(S, "self.ivar[arm] = ivar[arm][idx].copy()", "self.ivar[arm] = ivar[arm][idx]")]),
 ("d05-a0", "C05,C11", [(S, "            w = flux_arm > 0\n\n            self.cont_params['x'][0] +=", "            w = flux_arm > 0\n            if not w.any():\n                continue\n\n            self.cont_params['x'][0] +=")]),
 ("d05-eff", "C05,C18", [(S, "            msnr_eff += val**3\n", "            msnr_eff += abs(val)**3\n")]),
 ("d05-dshort", "C05,C18", [(S, "npixels_expected = int(skip_ratio * npixels_expected) + 1", "npixels_expected = max(1, int(skip_ratio * npixels_expected))")]),
 ("d06-rf", "C06", [("masks.py", "            mask_idx_ranges = np.concatenate((m1, m2))\n            for idx1", "            mask_idx_ranges = m1 if len(m1) else m2\n            for idx1")]),
 ("d06-balonce", "C06", [("masks.py", "        num_velocities = min_velocities.size\n", "        num_velocities = min_velocities.size\n        min_velocities = np.minimum(min_velocities, max_velocities)\n")]),
 ("d06-balivar", "C06", [("masks.py", "            mask_idx_ranges.sort(axis=1)\n            for idx1, idx2 in mask_idx_ranges:\n                w[idx1:idx2] = 1\n            spec.forestflux[arm][w] = 0", "            mask_idx_ranges.sort(axis=1)\n            for idx1, idx2 in mask_idx_ranges:\n                w[idx1:idx2] = 1\n            w &= spec.forestflux[arm] != 0\n            spec.forestflux[arm][w] = 0")]),
 ("d07-first", "C07", [("masks.py", "        for z_dla, nhi in spec_dlas[['Z_DLA', 'NHI']]:\n            transmission *= ", "        for z_dla, nhi in np.unique(spec_dlas[['Z_DLA', 'NHI']])[:4]:\n            transmission *= ")]),
 ("d07-rename", "C07", [("masks.py", "columns_list = [\"TARGETID\", z_colname, \"NHI\"]\n        catalog = fts['DLACAT'].read(columns=columns_list)", "columns_list = [\"TARGETID\", z_colname, \"NHI\"]\n        catalog = np.unique(fts['DLACAT'].read(columns=columns_list))")]),
 ("d08-inplace", "C08", [("calibration.py", "                    spec.forestivar[arm][spec.forestivar[arm] < 0] = 0", "                    spec.forestivar[arm][spec.forestflux[arm] == 0] = 0")]),
 ("d08-order", "C08", [("calibration.py", "        eta[eta == 0] = 1\n", "        eta[eta <= 0] = 1\n")]),
 ("d08-noeta", "C08", [("calibration.py", "        if not add_varlss:\n            self.varlss_interp = None\n\n        if no_eta:", "        if not add_varlss:\n            self.varlss_interp = None\n\n        if no_eta and not add_varlss:")]),
 ("d09-var", "C09", [(S, "            w = self.forestivar[arm] > 0\n            var[w] = 1 / self.forestivar[arm][w]\n\n            coadd_flux[idx] += weight * self.forestflux[arm]", "            w = weight > 0\n            var[w] = 1 / weight[w]\n\n            coadd_flux[idx] += weight * self.forestflux[arm]")]),
 ("d09-grid", "C09", [(S, "coadd_wave = np.linspace(min_wave, max_wave, nwaves)\n        coadd_flux = np.zeros(nwaves)\n        coadd_ivar = np.zeros(nwaves)\n        coadd_norm = np.zeros(nwaves)\n\n        idxes = {}", "coadd_wave = min_wave + np.round(self.dwave, 2) * np.arange(nwaves)\n        coadd_flux = np.zeros(nwaves)\n        coadd_ivar = np.zeros(nwaves)\n        coadd_norm = np.zeros(nwaves)\n\n        idxes = {}")]),
 ("d09-simple-snr", "C09", [(S, "                weight = self.ivar[arm].copy()\n                weight[weight == 0] = 1e-8", "                weight = self.ivar[arm]\n                weight[weight == 0] = 1e-8")]),
 ("d09-reso-w", "C09", [(S, "                weight = self.forestweight[arm].copy()\n                weight[weight == 0] = 1e-8", "                weight = self.forestivar[arm].copy()\n                weight[weight == 0] = 1e-8")]),
 ("d10-sm-undo", "C10", [(S, "            self._smoothing_scale = 0\n            self._forestivar_sm = self._forestivar\n", "            self._forestivar_sm = self._forestivar\n")]),
 ("d10-weight-raw", "C10,C11", [(S, "            ivar_arm = self.forestivar_sm[arm]\n            self._forestweight[arm]", "            ivar_arm = self.forestivar[arm]\n            self._forestweight[arm]")]),
 ("d10-chi2-mask", "C10", [(S, "            weight = self.forestweight[arm]\n            flux = self.forestflux[arm]\n            chi2 +=", "            weight = self.forestweight[arm] * (self.forestivar[arm] > 0)\n            flux = self.forestflux[arm]\n            chi2 +=")]),
 ("d11-cov", "C11", [(PM, "            spec.cont_params['xcov'] = result['xcov']\n", "            spec.cont_params['xcov'] = np.atleast_2d(np.diag(np.diag(result['xcov'])))\n")]),
 ("d11-dof", "C11,C18", [(PM, "spec.get_real_size() - self.cont_order - 1", "sum(_.size for _ in spec.forestwave.values()) - self.cont_order - 1")]),
 ("d11-lastarm", "C11", [(PM, "                if any(cont_est < 0):\n                    spec.cont_params['valid'] = False\n                    break\n", "                spec.cont_params['valid'] = not any(cont_est < 0)\n")]),
 ("d11-negmasked", "C11", [(PM, "                if any(cont_est < 0):", "                if any(cont_est[spec.forestivar[arm] > 0] < 0):")]),
 ("d13-weightsm", "C13", [(PM, "weighted_flux = weight * spec.forestflux[arm] / cont\n", "weighted_flux = spec.forestivar_sm[arm] * cont * spec.forestflux[arm]\n")]),
 ("d13-converge", "C13,C03", [(P, "has_converged = (chi2_change < 1e-3) | all_pt_test", "has_converged = (chi2_change < 1e-3) | (all_pt_test & (self.mpi_rank == 0))")]),
 ("d13-empty", "C13", [(P, "norm_flux[~w] = np.mean(norm_flux[w])", "norm_flux[~w] = np.mean(norm_flux)")]),
 ("d13-resid", "C13", [(P, "        if self.model.stacks_residual_flux():\n            new_meancont *=", "        if self.cont_order > 0 or self.model.stacks_residual_flux():\n            new_meancont *=")]),
 ("d14-wclip", "C14", [(P, "            0, self.nwbins + 1\n        )\n        ivar_indx", "            1, self.nwbins\n        )\n        ivar_indx")]),
 ("d14-mean2", "C14", [(P, "        self.subsampler.mean[2, w] /= self._num_pixels[w]", "        self.subsampler.mean[2, w] /= np.maximum(self._num_qso[w], 1)")]),
 ("d14-stats", "C14", [(P, "        self._num_qso.fill(0)\n        self._stats_calculated = False", "        self._num_qso.fill(0)")]),
 ("d14-fallback", "C14", [(P, "                err2use = self.e_var_delta[wave_slice][w]\n        else:", "                err2use = np.sqrt(np.abs(np.diag(err2use)))\n        else:")]),
 ("d14-smooth2", "C14", [(P, "            w = w[:, 0]\n", "            w = w.all(axis=1)\n")]),
 ("d17-bykey", "C17", [(S, "            ivar = self.forestivar[arm] * cont_est**2\n            weight =", "            ivar = self.forestivar_sm[arm] * cont_est**2\n            weight =")]),
 ("d17-snr0", "C17", [(S, "            if self.mean_snr[arm] == 0:\n                continue\n", "            if self.mean_snr[arm] <= 0 and self.rsnr <= 0:\n                continue\n")]),
 ("d17-order", "C17", [("io.py", "    elif mpi_rank is not None:", "    elif mpi_rank is not None and len(spectra_list) > 0:")]),
 ("d18-rsnr-after", "C18", [(F, "            if spec.forestwave and spec.rsnr >= args.min_rsnr", "            if len(spec.forestwave) > 0 and abs(spec.rsnr) >= args.min_rsnr")]),
 ("d18-skip", "C18", [(F, "    for spec in spectra_list:\n        spec.drop_short_arms(args.forest_w1, args.forest_w2, args.skip)\n", "    for spec in spectra_list:\n        if args.coadd_arms == 'disable':\n            spec.drop_short_arms(args.forest_w1, args.forest_w2, args.skip)\n")]),
 ("d18-zmin", "C18", [(F, "zmin_qso = args.wave1 / (args.forest_w2 - tol) - 1", "zmin_qso = max(2.0, args.wave1 / (args.forest_w2 - tol) - 1)")]),
 ("d18-dla-l", "C18", [(F, "            [cat['TARGETID'] for cat in local_queue])", "            [cat['TARGETID'] for cat in local_queue[:8]])")]),
 ("d18-balq", "C18,C03", [(F, "        maskers.append(qsonic.masks.BALMask)", "        if any(np.any(cat['VMIN_CIV_450'] > 0) for cat in local_queue):\n            maskers.append(qsonic.masks.BALMask)")]),
 ("d19-m2", "C19", [(S, "_fits_colnames.copy()", "_fits_colnames")]),
 ("d20-self", "C20", [(S, "        dwave = self.header.get('DELTA_LAMBDA', 0.8)", "        dwave = self.header.get('DELTA_LAMBDA', self.wave[1] - self.wave[0])")]),
 ("d20-norm", "C20", [(S, "            w = (obj.weight > 0) & (obj.ivar > 0)\n            var[w] = 1 / obj.ivar[w]", "            w = obj.ivar > 1e-3\n            var[w] = 1 / obj.ivar[w]")]),
 ("d20-nest", "C20", [(CD, "lonlat=True, nest=args.nest)", "lonlat=True, nest=args.nest or args.nside > 8)")]),
 ("d21-max", "C21", [(CB, "            and (delta.mean_snr < args.max_snr)", "            and (delta.mean_snr <= args.max_snr)")]),
 ("d21-cat", "C21", [(CB, "sel_bal = np.any(sel_ai, axis=1) | np.any(sel_bi, axis=1)", "sel_bal = np.any(sel_ai, axis=1) | sel_bi[:, 0]")]),
 ("d22-tid", "C22", [(F, "            np.nonzero(local_catalog['TARGETID'] == spec.targetid)[0][0]", "            np.searchsorted(local_catalog['TARGETID'], spec.targetid) % len(local_catalog)")]),
 ("d22-hpx", "C22", [(F, "    idx_sort = local_catalog.argsort(order=sort_order)\n", "    idx_sort = local_catalog.argsort(order=sort_order[:-1])\n")]),
 ("d22-slice", "C22", [(F, "            if spec.forestwave[arm].size != spec.cont_params['cont'][arm].size:\n                spec.cont_params['valid'] = False\n", "")]),
 ("d25-mock-tile", "C25", [(F, "        (args.mock_analysis and args.tile_format,\n", "        (args.mock_analysis and args.tile_format and not args.save_by_hpx,\n")]),
 ("d25-both", "C25", [(F, "    if args.true_continuum:\n        args.continuum_model = \"true\"\n", "")]),
]
