"""Trial bugs, ninth set: regimes of size, sign, scale and type."""
SP, IO, MA, PC, MU = ("spectrum.py", "io.py", "masks.py",
                      "picca_continuum.py", "mpi_utils.py")
MT, CA, CL = "mathtools.py", "catalog.py", "calibration.py"
FIT, CAL, COA = ("scripts/qsonic_fit.py", "scripts/qsonic_calib.py",
                 "scripts/qsonic_coadd_deltas.py")
T = [
("i01-f4tid", "C01", [(CA, "nqso != np.unique(catalog['TARGETID']).size:", "nqso != np.unique(catalog['TARGETID'].astype(float)).size:")]),
("i01-i4tid", "C01", [(CA, "nqso != np.unique(catalog['TARGETID']).size:", "nqso != np.unique(catalog['TARGETID'].astype('i4')).size:")]),
("i01-ra360", "C01", [(CA, "n_side, catalog['RA'], catalog['DEC'],", "n_side, np.clip(catalog['RA'], 0, 359.9), catalog['DEC'],")]),
("i01-strip", "C01", [(CA, 'w = np.isin(catalog["SURVEY"], keep_surveys)', 'w = np.isin(catalog["SURVEY"].astype("U3"), [x[:3] for x in keep_surveys])')]),
("i01-zf4", "C01", [(CA, "w = (catalog['Z'] >= zmin) & (catalog['Z'] <= zmax)", "w = (catalog['Z'] >= np.float32(zmin)) & (catalog['Z'] <= np.float32(zmax))")]),
("i01-kind", "C01", [(CA, "    catalog.sort(order=sort_order)\n", "    catalog = catalog[np.lexsort([catalog[k] if catalog[k].dtype.kind != 'U' else catalog[k].astype('U2') for k in sort_order[::-1]])]\n")]),
("i04-many", "C04", [(IO, "    for idata, iqso in enumerate(quasar_indices):\n        data[idata, :] = imhdu[int(iqso), :]\n", "    if quasar_indices.size > 12:\n        return imhdu.read()[np.sort(quasar_indices)]\n    for idata, iqso in enumerate(quasar_indices):\n        data[idata, :] = imhdu[int(iqso), :]\n")]),
("i04-i2", "C04", [(IO, "        data[idata, :] = imhdu[int(iqso), :]\n", "        data[idata, :] = imhdu[int(np.uint8(iqso)), :]\n")]),
("i04-maskbits", "C04", [(IO, "        data['mask'][arm] = _read_imagehdu(\n            fitsfile[f'{arm}_MASK'], idx_fbr, nwave)\n", "        data['mask'][arm] = _read_imagehdu(\n            fitsfile[f'{arm}_MASK'], idx_fbr, nwave).astype('u2')\n")]),
("i04-surveysplit", "C04", [(IO, "    pixnum = catalog_hpx['HPXPIXEL'][0]\n\n    for cat_by_survey in survey_split_cat:\n        survey = cat_by_survey['SURVEY'][0]\n\n        fspec = (f\"{input_dir}/{survey}/{program}/{pixnum//100}/\"\n                 f\"{pixnum}/spectra-", "    pixnum = catalog_hpx['HPXPIXEL'][0]\n\n    for cat_by_survey in survey_split_cat[:3]:\n        survey = cat_by_survey['SURVEY'][0]\n\n        fspec = (f\"{input_dir}/{survey}/{program}/{pixnum//100}/\"\n                 f\"{pixnum}/spectra-")]),
("i04-petal10", "C04", [(IO, "        petal = cat_by_petal['PETAL_LOC'][0]\n", "        petal = cat_by_petal['PETAL_LOC'][0] % 8\n")]),
("i04-wavef4", "C04", [(IO, "data['wave'][arm] = fitsfile[f'{arm}_WAVELENGTH'].read()", "data['wave'][arm] = fitsfile[f'{arm}_WAVELENGTH'].read().astype('f4').astype('f8')")]),
("i04-resof4", "C04", [(IO, "    data = np.empty((quasar_indices.size, ndiags, nwave), dtype=dtype)\n", "    data = np.empty((quasar_indices.size, ndiags, nwave), dtype='f2').astype('f4')\n")]),
("i05-maskhigh", "C05", [(SP, "w = (mask[arm][idx] != 0) |", "w = (mask[arm][idx].astype('u1') != 0) |")]),
("i05-maskpos", "C05", [(SP, "w = (mask[arm][idx] != 0) |", "w = (mask[arm][idx] > 0) |")]),
("i05-rsnrneg", "C05", [(SP, "            self.rsnr += np.dot(self.flux[arm][ii1:], weight)\n", "            self.rsnr += np.dot(np.clip(self.flux[arm][ii1:], -100, 1e3), weight)\n")]),
("i05-rsnrlast", "C05", [(SP, "            weight = np.sqrt(self.ivar[arm][ii1:])\n            self.rsnr += np.dot(self.flux[arm][ii1:], weight)\n", "            weight = np.sqrt(self.ivar[arm][ii1:])\n            if weight.size < 2:\n                continue\n            self.rsnr += np.dot(self.flux[arm][ii1:], weight)\n")]),
("i05-f4acc", "C05", [(SP, "            self.mean_snr[arm] = np.dot(np.sqrt(ivar_arm), flux_arm) / armpix\n", "            self.mean_snr[arm] = np.dot(np.sqrt(ivar_arm), flux_arm) / np.uint8(min(armpix, 255))\n")]),
("i05-reso3", "C05", [(SP, "            elif reso[arm].ndim == 2:\n                self.reso[arm] = reso[arm].copy()\n            else:\n                self.reso[arm] = reso[arm][idx].copy()\n", "            elif reso[arm].ndim == 2:\n                self.reso[arm] = reso[arm]\n            else:\n                self.reso[arm] = reso[arm][idx].copy()\n")]),
("i05-emptyarm", "C05", [(SP, "            if real_size_arm == 0:\n                continue\n", "            if real_size_arm == 0 and ii1 == ii2:\n                continue\n")]),
("i05-snrneg", "C05", [(SP, "        for val in self.mean_snr.values():\n            msnr_eff += val**3\n", "        for val in self.mean_snr.values():\n            if val < 0:\n                continue\n            msnr_eff += val**3\n")]),
("i05-longge", "C05", [(SP, "return self.get_real_size() > skip_ratio * npixels", "return self.get_real_size() > int(skip_ratio * npixels)")]),
("i05-zarm", "C05", [(SP, "        for ivar_arm in self.forestivar.values():\n            size += np.sum(ivar_arm > 0)\n", "        for arm, ivar_arm in self.forestivar.items():\n            size += np.sum(ivar_arm > 0) if arm != 'Z' else np.sum(self.forestflux[arm] != 0)\n")]),
("i09-gapone", "C09", [(SP, "            coadd_cont = np.ones(nwaves)\n", "            coadd_cont = np.zeros(nwaves)\n")]),
("i09-simplewide", "C09", [(SP, "        nwaves = round((max_wave - min_wave) / Spectrum._dwave + 0.1)\n", "        nwaves = min(round((max_wave - min_wave) / Spectrum._dwave + 0.1), 4096)\n")]),
("i09-idxi2", "C09", [(SP, "            idx = ((wave_arm - min_wave) / self.dwave + 0.1).astype(int)\n            idxes[arm] = idx\n\n            weight = self.ivar[arm]\n", "            idx = np.round((wave_arm - min_wave) / self.dwave).astype(int)\n            idxes[arm] = idx\n\n            weight = self.ivar[arm]\n")]),
("i09-padodd", "C09", [(SP, "                weight = self.ivar[arm].copy()\n                weight[weight == 0] = 1e-8\n\n                ddia = max_ndia - reso_arm.shape[0]\n", "                weight = self.ivar[arm].copy()\n                weight[weight == 0] = 1e-8\n\n                ddia = min(max_ndia - reso_arm.shape[0], 4)\n                if ddia == 4 and max_ndia - reso_arm.shape[0] > 4:\n                    reso_arm = np.pad(reso_arm, ((0, max_ndia - reso_arm.shape[0] - 4), (0, 0)))\n")]),
("i10-smbig", "C10", [(SP, "            sigma_pix = smoothing_size / self.dwave\n", "            sigma_pix = min(smoothing_size / self.dwave, 25.)\n")]),
("i10-snrcap", "C10", [(SP, "            self._forestweight[arm] = ivar_arm / (eta + ivar_arm * var_lss)\n", "            self._forestweight[arm] = ivar_arm / (eta + ivar_arm * np.minimum(var_lss, 1e2))\n")]),
("i10-etalow", "C10", [(SP, "            eta = eta_interp(wave_arm)\n            ivar_arm = self.forestivar_sm[arm]\n", "            eta = np.maximum(eta_interp(wave_arm), .1)\n            ivar_arm = self.forestivar_sm[arm]\n")]),
("i10-chi2clip", "C10", [(SP, "            chi2 += np.dot(weight, (flux - cont_est)**2)\n", "            chi2 += np.dot(weight, np.minimum((flux - cont_est)**2, 1e4))\n")]),
("i17-deltaclip", "C17", [(SP, "            delta[ivar == 0] = 0\n\n            cols", "            delta[ivar == 0] = 0\n            delta = np.clip(delta, -100, 100)\n\n            cols")]),
("i17-snrneg", "C17", [(SP, "            if self.mean_snr[arm] == 0:\n                continue\n\n            hdr", "            if self.mean_snr[arm] <= 0:\n                continue\n\n            hdr")]),
("i17-resof4", "C17", [(SP, "cols.append(self.forestreso[arm].T.astype('f8'))", "cols.append(self.forestreso[arm].T.astype('f4'))")]),
("i17-loglam", "C17", [(SP, "self.wave = 10**data['LOGLAM']", "self.wave = np.exp(np.float32(np.log(10)) * data['LOGLAM'])")]),
("i17-many", "C17", [(IO, "[qsonic.spectrum.Delta(hdu) for hdu in fts[1:]]", "[qsonic.spectrum.Delta(hdu) for hdu in fts[1:64]]")]),
("i17-tidlos", "C17", [(SP, "        self.targetid = self.header[key]\n", "        self.targetid = int(float(self.header[key]))\n")]),
("i17-expid", "C17,C22", [(SP, "expid = f\"-{self.catrow['EXPID']}\"", "expid = f\"-{self.catrow['EXPID'] % 100000}\"")]),
("i20-float", "C20", [(SP, "            lss[w] = 1 - obj.weight[w] * var[w]\n", "            lss[w] = np.maximum(1 - obj.weight[w] * var[w], 1e-3)\n")]),
("i20-dwave", "C20", [(SP, "            dwave = self.header.get('DELTA_LAMBDA', 0.8)\n", "            dwave = 0.8\n")]),
("i20-tol", "C20", [(SP, "            i0 = ((obj.wave[0] - min_wave) / dwave + 0.1).astype(int)\n            idx = np.s_", "            i0 = int((obj.wave[0] - min_wave) / dwave)\n            idx = np.s_")]),
("i19-wlya", "C19", [(SP, "args.forest_w1 > Spectrum.WAVE_LYA_A", "args.forest_w1 > 1200")]),
]
