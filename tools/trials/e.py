"""Trial bugs, fifth set."""
SP, IO, MA, PC, MU = ("spectrum.py", "io.py", "masks.py",
                      "picca_continuum.py", "mpi_utils.py")
MT, CA, CL = "mathtools.py", "catalog.py", "calibration.py"
FIT, CAL, COA = ("scripts/qsonic_fit.py", "scripts/qsonic_calib.py",
                 "scripts/qsonic_coadd_deltas.py")
PM = "continuum_models/picca_continuum_model.py"
IM = "continuum_models/input_continuum_model.py"
TM = "continuum_models/true_continuum_model.py"
T = [
("e01-float32-z", "C01", [(CA, "    w = (catalog['Z'] >= zmin) & (catalog['Z'] <= zmax)\n",
 "    z = catalog['Z'].astype('f4')\n    w = (z >= np.float32(zmin)) & (z <= np.float32(zmax))\n")]),
("e01-ext-last", "C01", [(CA, "        cat_hdu = cat_hdu[0]\n", "        cat_hdu = cat_hdu[-1]\n")]),
("e01-bal-drop", "C01", [(CA, "    keep_columns = [col for col in colnames if col in _all_columns]\n",
 "    keep_columns = [col for col in colnames if col in _all_columns]\n    if len(keep_columns) > 10:\n        keep_columns = keep_columns[:10]\n")]),
("e01-tile-dup", "C01", [(CA, "np.unique(catalog[['TARGETID', 'TILEID']]).size", "np.unique(\n            catalog['TARGETID'].astype(float) * 1e3 + catalog['TILEID']).size")]),
("e01-survey-case", "C01", [(CA, '''        w = np.isin(catalog["SURVEY"], keep_surveys)
''', '''        w = np.isin(np.char.lower(catalog["SURVEY"].astype(str)), [
            s.lower() for s in keep_surveys])
''')]),
("e01-ra-wrap", "C01", [(CA, "            n_side, catalog['RA'], catalog['DEC'], lonlat=True, nest=True)",
 "            n_side, np.clip(catalog['RA'], 0, 359.9), catalog['DEC'],\n            lonlat=True, nest=True)")]),
("e02-inplace-sort", "C02", [(MU, "    for cat in split_catalog:\n        min_idx", "    for cat in split_catalog[:10 * mpi_size] if mpi_size > 4 else split_catalog:\n        min_idx")]),
("e02-empty-rank", "C02", [(MU, "        min_idx = np.argmin(number_of_spectra)\n", "        min_idx = np.argmin(number_of_spectra // 2)\n")]),
("e02-int8", "C02", [(MU, "number_of_spectra = np.zeros(mpi_size, dtype=int)", "number_of_spectra = np.zeros(mpi_size, dtype='u1')")]),
("e03-bcast-nocomm", "C03", [(MU, '''        except Exception as e:
            logging.exception(e)
            # Callables''', '''        except (OSError, ValueError, RuntimeError) as e:
            logging.exception(e)
            # Callables''')]),
("e03-parse-typeerror", "C03", [(MU, '''        except SystemExit:
            args = -1''', '''        except SystemExit as e:
            if e.code == 0:
                raise
            args = -1''')]),
("e03-skyread", "C03", [(FIT, "        skymasker = qsonic.masks.SkyMask(args.sky_mask)\n", "        skymasker = qsonic.masks.SkyMask(\n            args.sky_mask, comm if local_queue else None, mpi_rank)\n")]),
("e03-stackdw", "C03", [(CAL, "    dwave = comm.allreduce(dwave, max)\n", "    if not dwave:\n        dwave = comm.allreduce(dwave, max)\n")]),
("e03-varfit-raise", "C03", [(PC, '''        if invalid_ratio > 0.4:
            raise QsonicException(''', '''        if invalid_ratio > 0.4 and self.mpi_rank == 0:
            raise QsonicException(''')]),
("e03-qexc", "C03", [(PC, '''            raise QsonicException("Crucial error: No valid continuum fits!")''', '''            raise Exception("Crucial error: No valid continuum fits!")''')]),
("e04-int32", "C04", [(IO, "    idx_fbr = np.nonzero(np.isin(fbrmap['TARGETID'], targetids_by_survey))[0]\n    targetids_fbr = fbrmap['TARGETID'][idx_fbr]\n", "    idx_fbr = np.nonzero(np.isin(fbrmap['TARGETID'], targetids_by_survey))[0]\n    targetids_fbr = fbrmap['TARGETID'][idx_fbr].astype('f8')\n")]),
("e04-petal", "C04", [(IO, "        petal = cat_by_petal['PETAL_LOC'][0]\n", "        petal = catalog_tile['PETAL_LOC'][0] if len(petal_split_cat) > 3 \\\n            else cat_by_petal['PETAL_LOC'][0]\n")]),
("e04-reso-arm", "C04", [(IO, "        if skip_resomat or f'{arm}_RESOLUTION' not in fitsfile:\n            continue\n", "        if skip_resomat or f'{arm}_RESOLUTION' not in fitsfile:\n            skip_resomat = True\n            continue\n")]),
("e04-mask-i4", "C04", [(IO, "    dtype = imhdu._get_image_numpy_dtype()\n    data = np.empty((quasar_indices.size, nwave), dtype=dtype)", "    dtype = imhdu._get_image_numpy_dtype()\n    if np.dtype(dtype).kind in 'iu':\n        dtype = 'i2'\n    data = np.empty((quasar_indices.size, nwave), dtype=dtype)")]),
("e04-fluxf4", "C04", [(IO, "    data = np.empty((quasar_indices.size, nwave), dtype=dtype)", "    data = np.empty((quasar_indices.size, nwave), dtype=dtype)\n    if np.dtype(dtype).kind == 'f':\n        data = data.astype('f4')")]),
("e04-expcat", "C04", [(IO, "        new_cat = drop_fields(new_cat, fbrmap.dtype.names, usemask=False)\n", "        fbrmap = drop_fields(fbrmap, new_cat.dtype.names, usemask=False)\n")]),
("e05-inf-mask", "C05", [(SP, "            w = (mask[arm][idx] != 0) | np.isnan(self.flux[arm]) \\\n", "            w = (mask[arm][idx] > 0) | np.isnan(self.flux[arm]) \\\n")]),
("e05-mask-bits", "C05", [(SP, "(mask[arm][idx] != 0) |", "(mask[arm][idx] & 0xFFFF != 0) |")]),
("e05-snr-neg", "C05", [(SP, "            self.mean_snr[arm] = np.dot(np.sqrt(ivar_arm), flux_arm) / armpix", "            self.mean_snr[arm] = np.dot(\n                np.sqrt(ivar_arm[w]), flux_arm[w]) / armpix")]),
("e05-forest-inplace", "C05", [(SP, "            self._forestivar[arm] = self.ivar[arm][ii1:ii2].copy()", "            self._forestivar[arm] = self.ivar[arm][ii1:ii2]")]),
("e05-coaddwave", "C05,C09", [(SP, "        self._forestwave[arm] = self._forestwave[arm][i1:i2]\n", "        self._forestwave[arm] = self._forestwave[arm][i1:i2 or None]\n")]),
("e05-dropall", "C05", [(SP, "        npixels_expected = int(skip_ratio * npixels_expected) + 1\n", "        npixels_expected = int(skip_ratio * npixels_expected + 1)\n")]),
("e05-rsnr-w", "C05", [(SP, "            rsnr_weight += np.sum(weight > 0)\n", "            rsnr_weight += np.sum(self.flux[arm][ii1:] != 0)\n")]),
("e06-nan", "C06", [(MA, "        w = (min_velocities > 0) & (max_velocities > 0)\n", "        w = (min_velocities > 0) & (max_velocities > min_velocities)\n")]),
("e06-rightside", "C06", [(MA, '''                [self.mask_obs_frame['wave_min'],
                 self.mask_obs_frame['wave_max']]
            ).T''', '''                [self.mask_obs_frame['wave_min'],
                 self.mask_obs_frame['wave_max']], side='right'
            ).T''')]),
("e06-skyempty", "C06", [(MA, "            mask_idx_ranges = np.concatenate((m1, m2))\n", "            mask_idx_ranges = np.concatenate((m1, m2))\n            mask_idx_ranges = mask_idx_ranges[mask_idx_ranges[:, 0] > 0]\n")]),
("e06-lines", "C06", [(MA, '        ("lLy4", 949.7)],', '        ("lLy4", 949.74)],')]),
("e06-round", "C06", [(MA, "        bal_obs_lines = BALMask.lines['value'] * (1 + spec.z_qso)\n", "        bal_obs_lines = BALMask.lines['value'].astype('f4') * np.float32(\n            1 + spec.z_qso)\n")]),
("e07-nhi-cut", "C07", [(MA, "        for z_dla, nhi in spec_dlas[['Z_DLA', 'NHI']]:\n", "        for z_dla, nhi in spec_dlas[['Z_DLA', 'NHI']]:\n            if nhi < 19.5:\n                continue\n")]),
("e07-ztrans-multi", "C07", [(MA, "            transmission *= DLAMask.get_dla_flux(wave, z_dla, nhi)\n", "            transmission = np.minimum(\n                transmission, DLAMask.get_dla_flux(wave, z_dla, nhi))\n")]),
("e07-order2", "C07", [(MA, "        catalog.sort(order='TARGETID')\n", "        catalog.sort(order=['TARGETID', 'Z_DLA'])\n        catalog = catalog[np.append(True, np.diff(catalog['TARGETID']) + np.diff(catalog['Z_DLA']) != 0)] if catalog.size else catalog\n")]),
("e07-tf", "C07", [(MA, "            spec.forestflux[arm] /= transmission\n            spec.forestivar[arm] *= transmission**2", "            spec.forestflux[arm] /= transmission\n            if spec_dlas.size > 1:\n                spec.forestivar[arm] *= transmission\n            else:\n                spec.forestivar[arm] *= transmission**2")]),
("e07-z2", "C07", [(MA, '    accepted_zcolnames = ["Z_DLA", "Z"]', '    accepted_zcolnames = ["Z", "Z_DLA"]')]),
("e08-share", "C08", [(CL, "                    vlss *= spec.cont_params['cont'][arm]**2\n", "                    vlss *= np.mean(spec.cont_params['cont'][arm])**2\n")]),
("e08-extr", "C08", [(CL, "                stacked_flux = self.stacked_flux_interp(wave_arm)\n", "                stacked_flux = self.stacked_flux_interp(np.clip(\n                    wave_arm, self.stacked_flux_interp.xp0, None))\n")]),
("e08-negclip", "C08", [(CL, "                    spec.forestivar[arm] /= eta\n", "                    spec.forestivar[arm] /= np.abs(eta)\n")]),
("e08-etazero", "C08", [(CL, "        eta[eta == 0] = 1\n", "        eta[eta <= 0] = 1\n")]),
("e08-sm", "C08", [(CL, "                spec.forestivar[arm] *= stacked_flux**2\n", "                spec.forestivar[arm] = spec.forestivar[arm] * stacked_flux**2\n")]),
("e09-ivarzero", "C09", [(SP, "            w = self.forestivar[arm] > 0\n            var[w] = 1 / self.forestivar[arm][w]\n", "            w = weight > 0\n            var[w] = 1 / weight[w]\n")]),
("e09-grid-min", "C09", [(SP, "        coadd_wave = np.linspace(min_wave, max_wave, nwaves)\n        coadd_flux = np.zeros(nwaves)\n        coadd_ivar = np.zeros(nwaves)\n        coadd_norm = np.zeros(nwaves)\n\n        idxes = {}\n        for arm, wave_arm in self.forestwave", "        coadd_wave = min_wave + np.arange(nwaves) * self.dwave\n        coadd_flux = np.zeros(nwaves)\n        coadd_ivar = np.zeros(nwaves)\n        coadd_norm = np.zeros(nwaves)\n\n        idxes = {}\n        for arm, wave_arm in self.forestwave")]),
("e09-reso1", "C09", [(SP, "                coadd_norm[idxes[arm]] += weight\n\n            w = coadd_norm > 0\n            coadd_reso[:, w] /= coadd_norm[w]\n            self.reso =", "                coadd_norm[idxes[arm]] += weight\n\n            w = coadd_norm > 1e-8\n            coadd_reso[:, w] /= coadd_norm[w]\n            self.reso =")]),
("e09-static-grid", "C09", [(SP, "        if Spectrum._coadd_wave:\n            return\n", "        if Spectrum._coadd_wave:\n            return\n        if len(Spectrum._wave) == 1:\n            Spectrum._coadd_wave = {\n                'brz': list(Spectrum._wave.values())[0][:-1]}\n            return\n")]),
("e09-contmean", "C09", [(SP, "            coadd_cont = np.ones(nwaves)\n", "            coadd_cont = np.full(nwaves, np.nan)\n")]),
("e10-eta0", "C10", [(SP, "            self._forestweight[arm] = ivar_arm / (eta + ivar_arm * var_lss)\n", "            self._forestweight[arm] = ivar_arm / np.maximum(\n                1., eta + ivar_arm * var_lss)\n")]),
("e10-smscale", "C10", [(SP, "            sigma_pix = smoothing_size / self.dwave\n", "            sigma_pix = int(smoothing_size / self.dwave)\n")]),
("e10-pad", "C10,C16", [(MT, "    pad_size = max(1, int(3 * sigma_pix))\n", "    pad_size = max(1, min(int(3 * sigma_pix), x.size // 2))\n")]),
("e10-madside", "C10", [(MT, "    w2 = (error - median_err) > esigma * mad\n", "    w2 = np.abs(error - median_err) > esigma * mad\n")]),
("e10-reso3e5", "C10", [(SP, "        return rms_in_pixel * 3e5 * self.dwave / lambda_eff\n", "        return rms_in_pixel * 3e5 * self.dwave / np.mean(\n            self.forestwave[arm])\n")]),
("e11-maxiter", "C11", [(PM, "            bounds=None,\n            jac=None\n", "            bounds=None,\n            jac=None, options={'maxfun': 40}\n")]),
("e11-strategy", "C11", [(PM, "        result['valid'] = mini.success\n", "        result['valid'] = True\n")]),
("e11-errdef", "C11", [(PM, "        result['xcov'] = np.array(mini.covariance)\n", "        result['xcov'] = np.diag(np.array(mini.errors)**2)\n")]),
("e11-logw", "C11", [(PM, "            ) - np.log(weight[w]).sum()  # + penalty\n", "            ) - np.log(weight[w]).mean()  # + penalty\n")]),
("e11-mflux", "C11", [(PM, "            cont_est *= self.meanflux_interp(wave_arm)\n\n            var_lss = self.varlss_interp(wave_arm) * cont_est**2\n", "            var_lss = self.varlss_interp(wave_arm) * cont_est**2\n            cont_est *= self.meanflux_interp(wave_arm)\n\n")]),
("e11-slope", "C11", [(PM, "        slope = np.log(wave_rf_arm / self.rfwave0) / self.denom\n", "        slope = np.log(wave_rf_arm / self.rfwave0) / self.denom\n        slope = np.clip(slope, 0, 1)\n")]),
("e12-hpx", "C12", [(IM, "        local_catalog['HPXPIXEL'] = ang2pix(\n            self.nside, local_catalog['RA'], local_catalog['DEC'],\n            lonlat=True, nest=True)\n", "        local_catalog['HPXPIXEL'] = local_catalog['HPXPIXEL'] // (\n            64 // self.nside)**2\n")]),
("e12-cache", "C12", [(TM, "        tcont = spec.cont_params['true_data']\n", "        tcont = spec.cont_params.pop('true_data_', spec.cont_params['true_data'])\n        tcont = np.maximum(tcont, 0.05 * tcont.max())\n")]),
("e12-unsortedfm", "C12", [(IM, "        return hdr['WAVE1'], hdr['DWAVE'], common_targetids, continua[idx_fbr]\n", "        return (hdr['WAVE1'], hdr['DWAVE'], common_targetids,\n                continua[np.sort(idx_fbr)])\n")]),
("e12-allneg", "C12", [(IM, "            if any(cont_est <= 0) or any(np.isnan(cont_est)):\n", "            if any(cont_est[spec.forestivar[arm] > 0] <= 0) \\\n                    or any(np.isnan(cont_est)):\n")]),
("e12-varlss", "C12", [(TM, "        spec.set_forest_weight(self.varlss_interp)\n", "        spec.set_forest_weight()\n")]),
("e13-half", "C13", [(PC, "        wave_indx = ((wave_rf - self.waverf0) / self.dwrf + 0.5).astype(int)\n", "        wave_indx = np.rint((wave_rf - self.waverf0) / self.dwrf).astype(int)\n")]),
("e13-obsidx", "C13", [(PC, "        wave_indx = ((wave - self.waveobs[0]) / self.dwobs + 0.5).astype(int)\n", "        wave_indx = ((wave - self.waveobs[0]) / 8. + 0.5).astype(int)\n")]),
("e13-norminterp", "C13", [(PC, "        stacked_flux[self.flux_stacker.weights == 0] = 1\n", "        stacked_flux[stacked_flux <= 0] = 1\n")]),
("e13-allred", "C13", [(PC, "            self.comm.Allreduce(MPI.IN_PLACE, self._interp_rf.ep)\n", "            self.comm.Allreduce(MPI.IN_PLACE, self._interp_rf.ep, op=MPI.MAX)\n")]),
("e13-legendre", "C13", [(PC, "            norm = 2 * ci + 1\n", "            norm = 2 * ci + 1 if ci < 3 else 7\n")]),
("e14-ivaredge", "C14", [(PC, "        ivar_indx = np.searchsorted(self.ivar_edges, ivar)\n", "        ivar_indx = np.searchsorted(self.ivar_edges, ivar, side='right')\n")]),
("e14-bounds", "C14", [(PC, "                    bounds=(0, 2)\n", "                    bounds=(0, 1.5)\n")]),
("e14-regular", "C14", [(PC, "        self.subsampler.mean[2, w] /= self._num_pixels[w]\n", "        self.subsampler.mean[2, w] /= np.maximum(1, self._num_pixels[w] - 1)\n")]),
("e14-covblock", "C14", [(PC, "        return cov[1:-1, 1:-1, 1:-1]\n", "        return cov[:-2, 1:-1, 1:-1]\n")]),
("e14-statflag", "C14", [(PC, "        self._num_qso.fill(0)\n        self._stats_calculated = False\n", "        self._num_qso.fill(0)\n        self._stats_calculated = self._stats_calculated and self.use_cov\n")]),
("e15-allred-norm", "C15", [(MT, "            self.all_weights, norm, out=self.all_weights, where=norm != 0)\n", "            self.all_weights, norm, out=self.all_weights, where=norm > 1e-6)\n")]),
("e15-reset-mean", "C15", [(MT, "        self._isample = self._istart\n\n        self.all", "        self._isample = 0\n\n        self.all")]),
("e15-block", "C15", [(MT, "            y = x[:, kk * blockdim:(kk + 1) * blockdim]\n", "            y = x[:, kk * blockdim:(kk + 1) * blockdim].copy()\n            y -= y.mean(0, keepdims=True) * (kk % 2) * 2\n")]),
("e15-wrap", "C15", [(MT, "        self._istart = istart % nsamples\n", "        self._istart = istart\n")]),
("e16-copy", "C16", [(MT, "    def reset(self, fp, copy=False, ep=None):\n        if copy:\n            self.fp = fp.copy()\n        else:\n            self.fp = fp\n\n        self.ep = ep\n\n\nclass", "    def reset(self, fp, copy=False, ep=None):\n        if copy or fp.size != self.fp.size:\n            self.fp = fp.copy()\n        else:\n            self.fp[:] = fp\n\n        self.ep = ep\n\n\nclass")]),
("e16-mednan", "C16", [(MT, "        1.0, 1.0 / (1.4826 * median_filter(abs_diff, nwindow) + 1e-12))\n", "        1.0, 1.0 / (1.4826 * median_filter(abs_diff, nwindow) + 1e-3))\n")]),
("e16-n4", "C16", [(MT, "    if N < 4:\n        # Parabola (or line) that goes through all points\n", "    if N < 5:\n        # Parabola (or line) that goes through all points\n")]),
("e16-u", "C16", [(MT, "    for i in range(N - 4, u.size - 1, -1):\n", "    for i in range(N - 4, u.size, -1):\n")]),
("e16-smodd", "C16", [(MT, "    y = np.fft.irfft(smerror_k, n=arrsize)[pad_size:-pad_size]\n", "    y = np.fft.irfft(smerror_k, n=arrsize - arrsize % 2)[pad_size:pad_size + x.size]\n")]),
("e17-cont0", "C17", [(SP, "            ivar = self.forestivar[arm] * cont_est**2\n            weight = self.forestweight[arm] * cont_est**2\n", "            ivar = self.forestivar[arm] * cont_est**2\n            weight = self.forestivar_sm[arm] * cont_est**2\n")]),
("e17-arm-order", "C17", [(SP, "                cols.append(self.forestreso[arm].T.astype('f8'))\n", "                cols.append(self.forestreso[arm].T.astype('f4'))\n")]),
("e17-deltahdr", "C17", [(SP, "        hdr_dict = self.header\n\n        cols", "        hdr_dict = dict(self.header)\n\n        cols")]),
("e17-mask-read", "C17", [(SP, "        self.delta[self.ivar == 0] = 0\n", "        self.delta[self.ivar <= 1e-4] = 0\n")]),
("e17-keys", "C17", [(SP, "    _accepted_targetid_keys = ['TARGETID', 'MOCKID', 'THING_ID']", "    _accepted_targetid_keys = ['MOCKID', 'TARGETID', 'THING_ID']")]),
("e17-radeg", "C17,C20", [(SP, "        return np.degrees(self.header['DEC'])", "        return np.degrees(np.float32(self.header['DEC']))")]),
("e18-coaddafter-disable", "C18", [(FIT, "    if args.coadd_arms == \"after\":\n", "    if args.coadd_arms == \"after\" and len(args.arms) > 1:\n")]),
("e18-minsnr", "C18", [(FIT, "                    if spec.get_effective_meansnr() >= args.min_forestsnr]", "                    if spec.get_effective_meansnr() > args.min_forestsnr]")]),
("e18-attr", "C18", [(PC, "            if has_converged:\n                logging.info(\"Iteration has converged.\")\n                break\n", "            if has_converged and it > 0:\n                logging.info(\"Iteration has converged.\")\n                break\n")]),
("e18-smooth", "C18", [(FIT, "    if args.smoothing_scale > 0:\n", "    if args.smoothing_scale > 1:\n")]),
("e18-varlss-order", "C18", [(PC, "            has_converged = self.update_mean_cont(spectra_list)\n\n            if self.varlss_fitter:\n                self.update_var_lss_eta(spectra_list)\n", "            if self.varlss_fitter:\n                self.update_var_lss_eta(spectra_list)\n\n            has_converged = self.update_mean_cont(spectra_list)\n")]),
("e18-hpxfile", "C18", [(FIT, "    tol = (args.forest_w2 - args.forest_w1) * args.skip\n", "    tol = (args.forest_w2 - args.forest_w1) * args.skip / 2\n")]),
("e18-calib-pos", "C18", [(FIT, "        ncal.apply(valid_spectra)\n", "        ncal.apply(valid_spectra)\n        if args.coadd_arms == 'disable':\n            ncal.apply(valid_spectra)\n")]),
("e19-fitscol", "C19", [(SP, "            names = Spectrum._fits_colnames.copy()\n", "            names = list(Spectrum._fits_colnames)\n            if 'EXPID' in self.catrow.dtype.names:\n                names[1] = 'DELTA'\n")]),
("e19-empty", "C19", [(FIT, "        maxlastnight = comm.allreduce(maxlastnight, max)\n", "        maxlastnight = comm.allreduce(maxlastnight, min)\n")]),
("e19-hdr", "C19", [(SP, "                self.header['BLINDING'] = obj.header['BLINDING']\n", "                self.header['BLINDING'] = 'none'\n")]),
("e20-contw", "C20", [(SP, "            coadd_cont[idx] += obj.weight * obj.cont\n", "            coadd_cont[idx] += obj.ivar * obj.cont\n")]),
("e20-isint", "C20", [(SP, "            i0 = ((obj.wave[0] - min_wave) / dwave + 0.1).astype(int)\n", "            i0 = np.searchsorted(coadd_wave, obj.wave[0])\n")]),
("e20-single", "C20", [(COA, "        if others:\n            delta.coadd(others)\n", "        delta.coadd(others)\n")]),
("e20-poolchunk", "C20", [(COA, "        pool.starmap(_fnc, forest_by_hpx.items())", "        pool.starmap_async(_fnc, forest_by_hpx.items())\n        pool.close()\n")]),
("e20-key", "C20", [(COA, "        fnames.extend(sorted(glob.glob(f\"{directory}/delta-*.fits\")))\n", "        fnames.extend(sorted(glob.glob(f\"{directory}/delta-[0-9]*.fits\")))\n")]),
("e20-resoNone", "C20", [(SP, "        if self.reso is not None:\n            self._coadd_reso", "        if self.reso is not None and len(all_deltas) < 4:\n            self._coadd_reso")]),
("e21-zero", "C21", [(CAL, "    stacked_flux[~w] = 0\n", "    stacked_flux[~w] = 1\n")]),
("e21-floor", "C21", [(CAL, "        idx = np.round((delta.wave - args.wave1) / dwave).astype(int)\n", "        idx = ((delta.wave - args.wave1) / dwave).astype(int)\n")]),
("e21-gz", "C21", [(CAL, 'f"{args.input_dir}/delta-*.fits*"', 'f"{args.input_dir}/delta-*.fits"')]),
("e21-snrabs", "C21", [(CAL, "            and (delta.mean_snr < args.max_snr)\n", "            and (abs(delta.mean_snr) < args.max_snr)\n")]),
("e21-surv", "C21", [(CAL, "        remove_sur_tids = catalog['TARGETID'][~sel_survey]\n", "        remove_sur_tids = np.setdiff1d(\n            catalog['TARGETID'][~sel_survey], ids_to_remove)\n")]),
("e21-bcastdup", "C21", [(CAL, "    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size\n", "    i2 = max(i1 + 1, (ndelta_all * (mpi_rank + 1)) // mpi_size)\n")]),
("e22-valid", "C22", [(FIT, "            if spec.forestwave[arm].size != spec.cont_params['cont'][arm].size:\n                spec.cont_params['valid'] = False\n", "            if spec.forestwave[arm].size != spec.cont_params['cont'][arm].size:\n                spec.drop_arm(arm)\n")]),
("e22-weight", "C22", [(FIT, "    args.exposures = \"before\"\n    if args.coadd_arms != \"disable\":\n        args.coadd_arms = \"before\"\n", "    args.exposures = \"before\"\n    if args.coadd_arms == \"after\":\n        args.coadd_arms = \"disable\"\n")]),
("e22-mask", "C22", [(FIT, "            spectra_list, maskers, args, comm, mpi_rank)\n\n    # Final", "            spectra_list, maskers[:1], args, comm, mpi_rank)\n\n    # Final")]),
("e22-share", "C22", [(FIT, "        spec.cont_params = spec_coadd.cont_params.copy()\n        spec.cont_params['cont'] = {}\n", "        spec.cont_params = spec_coadd.cont_params\n        spec.cont_params = dict(spec.cont_params, cont={})\n")]),
("e23-hashsort", "C23", [(FIT, "    args.arms = list(dict.fromkeys(args.arms))\n", "    args.arms = list(set(args.arms))\n")]),
("e23-empty2", "C23", [(SP, "        coadd_flux = np.zeros(nwaves)\n        coadd_ivar = np.zeros(nwaves)\n        coadd_norm = np.zeros(nwaves)\n\n        idxes = {}\n        for arm, wave_arm in self.forestwave", "        coadd_flux = np.empty(nwaves)\n        coadd_flux[:] = 0 if len(self.forestwave) > 1 else coadd_flux\n        coadd_ivar = np.zeros(nwaves)\n        coadd_norm = np.zeros(nwaves)\n\n        idxes = {}\n        for arm, wave_arm in self.forestwave")]),
("e23-cachewave", "C23", [(SP, "        if Spectrum._coadd_wave:\n            return\n", "        if Spectrum._coadd_wave and len(Spectrum._wave) > 1:\n            return\n")]),
("e23-default", "C23", [(SP, "        if not Spectrum._wave:\n            Spectrum._wave = wave.copy()\n", "        if not Spectrum._wave:\n            Spectrum._wave = {k: wave[k] for k in set(wave)}\n")]),
("e24-int", "C24", [(PM, "        x0 = np.zeros_like(spec.cont_params['x'])\n        x0[0] = a0\n        mini = Minuit", "        x0 = [a0] + [0] * (spec.cont_params['x'].size - 1)\n        mini = Minuit")]),
("e24-f4", "C24", [(IO, "true_continua['TRUE_CONT'][idx_fbr, :].astype(\"f8\")", "true_continua['TRUE_CONT'][idx_fbr, :]")]),
("e24-clip", "C24,C16", [(MT, "    idx = np.clip(xx, 0, fp.size - 1 - 1e-8).astype(np.int_)\n\n    d_idx = xx - idx\n    y1, y2 = fp[idx], fp[idx + 1]\n\n    return", "    idx = np.clip(xx.astype(np.int_), 0, fp.size - 1)\n\n    d_idx = xx - idx\n    y1, y2 = fp[idx], fp[np.minimum(idx + 1, fp.size - 1)]\n\n    return")]),
("e24-wclip", "C24,C14", [(PC, "            0, self.nwbins + 1\n        )\n        ivar_indx", "            0, None\n        )\n        ivar_indx")]),
("e25-skip2", "C25", [(IO, "        if not (f1 <= f <= f2):\n", "        if not (f1 <= f < f2):\n")]),
("e25-nan", "C25", [(IO, "        if not (f1 <= f <= f2):\n", "        if f < f1 or f > f2:\n")]),
("e25-inputalias", "C25", [(FIT, "    if args.input_continuum_dir:\n        args.continuum_model = \"input\"\n", "    if args.input_continuum_dir and args.continuum_model != \"picca\":\n        args.continuum_model = \"input\"\n")]),
("e25-expo", "C25", [(FIT, "        (args.exposures != \"disable\" and args.tile_format,\n", "        (args.exposures == \"after\" and args.tile_format,\n")]),
]
