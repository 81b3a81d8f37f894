F = "scripts/qsonic_fit.py"
CD = "scripts/qsonic_coadd_deltas.py"
CB = "scripts/qsonic_calib.py"
T = [
 # C17
 ("c17-hpx-stable", "C17", [("io.py", "        unique_pix, s = np.unique(pixnos, return_index=True)\n        split_spectra = np.split(np.array(spectra_list)[sort_idx], s[1:])", "        unique_pix, s = np.unique(pixnos, return_index=True)\n        split_spectra = np.split(np.array(spectra_list), s[1:])")]),
 ("c17-rank0", "C17", [("io.py", "    elif mpi_rank is not None:", "    elif mpi_rank:")]),
 ("c17-delta-mask", "C17", [("spectrum.py", "            delta[ivar == 0] = 0\n\n            cols = [wave_arm", "            delta[weight == 0] = 0\n            delta[cont_est <= 0] = 0\n\n            cols = [wave_arm")]),
 ("c17-hdr-leak", "C17", [("spectrum.py", "            if self.mean_snr[arm] == 0:\n                continue\n\n            hdr_dict['MEANSNR'] = self.mean_snr[arm]", "            hdr_dict['MEANSNR'] = hdr_dict['MEANSNR'] or self.mean_snr[arm]\n            if self.mean_snr[arm] == 0:\n                continue\n")]),
 ("c17-meanreso", "C17", [("spectrum.py", "hdr_dict['MEANRESO'] = self.mean_resolution(arm)", "hdr_dict.setdefault('MEANRESO', self.mean_resolution(arm))")]),
 ("c17-loglam", "C17", [("spectrum.py", "self.wave = 10**data['LOGLAM']", "self.wave = np.round(10**data['LOGLAM'], 2)")]),
 ("c17-read-drop", "C17", [("io.py", "deltas_list = [qsonic.spectrum.Delta(hdu) for hdu in fts[1:]]", "deltas_list = [qsonic.spectrum.Delta(hdu) for hdu in fts[1:]\n                       if hdu.get_nrows() > 1]")]),
 ("c17-delta-f4", "C17", [("spectrum.py", "self.ivar = data['IVAR'].astype(\"f8\")", "self.ivar = data['IVAR'].astype(\"f4\").astype(\"f8\")")]),
 ("c17-expid", "C17", [("spectrum.py", "        if 'EXPID' in self.catrow.dtype.names:", "        if 'EXPID' in self.catrow.dtype.names and self.catrow['EXPID'] > 0 and 'NIGHT' in hdr_dict:")]),
 ("c17-blind-write", "C17,C19", [("spectrum.py", "        if self._is_blinded:\n            names[1] = 'DELTA_BLIND'", "        if self.header['BLINDING'] == 'desi_y3' or self._is_blinded and 'TILEID' not in hdr_dict:\n            names[1] = 'DELTA_BLIND'")]),
 # C18
 ("c18-rsnr-gt", "C18", [(F, "spec.rsnr >= args.min_rsnr", "spec.rsnr > max(args.min_rsnr, 0)")]),
 ("c18-fsnr-before-mask", "C18", [(F, "    apply_masks(maskers, spectra_list, mpi_rank)\n\n    # remove from sample if the number of pixels is small\n    spectra_list = remove_short_spectra(\n        spectra_list, args.forest_w1, args.forest_w2, args.skip)\n\n    # Remove spectra with respect to forest snr\n    spectra_list = [spec for spec in spectra_list\n                    if spec.get_effective_meansnr() >= args.min_forestsnr]\n", "    spectra_list = [spec for spec in spectra_list\n                    if spec.get_effective_meansnr() >= args.min_forestsnr]\n    apply_masks(maskers, spectra_list, mpi_rank)\n\n    # remove from sample if the number of pixels is small\n    spectra_list = remove_short_spectra(\n        spectra_list, args.forest_w1, args.forest_w2, args.skip)\n")]),
 ("c18-mask-before-cal", "C18", [(F, "    mpi_noise_flux_calibrate(spectra_list, args, comm, mpi_rank)\n\n    apply_masks(maskers, spectra_list, mpi_rank)\n", "    apply_masks(maskers, spectra_list, mpi_rank)\n\n    mpi_noise_flux_calibrate(spectra_list, args, comm, mpi_rank)\n")]),
 ("c18-zmax-tol", "C18", [(F, "zmax_qso = args.wave2 / (args.forest_w1 + tol) - 1", "zmax_qso = args.wave2 / (args.forest_w1 - tol) - 1")]),
 ("c18-etacal-weights", "C18", [(F, "eta_interp = _one_function if args.eta_calib_ivar else qcfit.eta_interp", "eta_interp = qcfit.eta_interp")]),
 ("c18-additive-smooth", "C18", [(F, "            spec.set_smooth_forestivar(spec._smoothing_scale)\n            spec.set_forest_weight(qcfit", "            spec.set_forest_weight(qcfit")]),
 ("c18-chi2-coadd", "C18", [(F, "            spec.calc_continuum_chi2()\n", "            pass\n")]),
 ("c18-fid-restore", "C18", [("picca_continuum.py", "            self.varlss_interp, self.eta_interp = fiducials\n", "            self.varlss_interp = fiducials[0]\n")]),
 ("c18-chi2-only-valid", "C18", [(F, "    qcfit.save_contchi2_catalog(spectra_list)\n\n    # Keep only valid spectra\n    spectra_list = valid_spectra", "    # Keep only valid spectra\n    spectra_list = valid_spectra\n    qcfit.save_contchi2_catalog(spectra_list)\n")]),
 ("c18-mpi-rank-col", "C18", [("picca_continuum.py", "row['MPI_RANK'] = self.mpi_rank", "row['MPI_RANK'] = 0")]),
 ("c18-arms-order", "C18", [("picca_continuum.py", 'row[\'ARMS\'] = ",".join(spec.mean_snr.keys())', 'row[\'ARMS\'] = ",".join(sorted(spec.mean_snr.keys(), reverse=True))')]),
 ("c18-norm-twice", "C18", [("picca_continuum.py", "        self._normalize_flux(spectra_list)\n        self._eta_calibate_ivar(spectra_list)\n\n        self.save(fattr)", "        self.save(fattr)\n        self._eta_calibate_ivar(spectra_list)\n        self._normalize_flux(spectra_list)\n")]),
 ("c18-save-before", "C18", [("picca_continuum.py", '            self.save(fattr, f"-{it + 1}")\n\n            # Fit', '            self.save(fattr, f"-{it + 1 if it < 2 else 2}")\n\n            # Fit')]),
 # C19
 ("c19-max-local", "C19", [("catalog.py", "", "")]),
 ("c19-lastnight-sel", "C19", [("spectrum.py", "args.forest_w1 > Spectrum.WAVE_LYA_A", "args.forest_w2 > Spectrum.WAVE_LYA_A")]),
 ("c19-coadd-strategy", "C19", [("spectrum.py", "                self.header['BLINDING'] = obj.header['BLINDING']\n", "")]),
 ("c19-sticky", "C19", [("spectrum.py", "        else:\n            Spectrum._fits_colnames[1] = 'DELTA'\n", "")]),
 ("c19-sideband", "C19", [("spectrum.py", "args.forest_w1 > Spectrum.WAVE_LYA_A:", "args.forest_w1 > 1200:")]),
 ("c19-boundary", "C19", [("spectrum.py", "elif maxlastnight < 20220801", "elif maxlastnight <= 20220801")]),
 ("c19-coadd-any", "C19", [("spectrum.py", "        for obj in all_deltas:\n            if obj._is_blinded and not self._is_blinded:", "        for obj in all_deltas[:2]:\n            if obj._is_blinded and not self._is_blinded:")]),
 # C20
 ("c20-hpx-order", "C20", [(CD, "lonlat=True, nest=args.nest)", "lonlat=True, nest=args.nest or args.nside > 64)")]),
 ("c20-glob", "C20", [(CD, 'glob.glob(f"{directory}/delta-*.fits")', 'glob.glob(f"{directory}/delta-*[0-9].fits")')]),
 ("c20-pairwise", "C20", [(CD, "            delta.coadd(others)", "            for x in others:\n                delta.coadd(x)")]),
 ("c20-idx", "C20", [("spectrum.py", "i0 = ((obj.wave[0] - min_wave) / dwave + 0.1).astype(int)", "i0 = ((obj.wave[0] - min_wave) / dwave).astype(int)")]),
 ("c20-lss", "C20", [("spectrum.py", "            lss[w] = 1 - obj.weight[w] * var[w]\n", "            lss = 1 - obj.weight * var\n")]),
 ("c20-reso", "C20", [("spectrum.py", "                obj.reso = np.pad(obj.reso, ((ddia, ddia), (0, 0)))", "                obj.reso = np.pad(obj.reso, ((0, 2 * ddia), (0, 0)))")]),
 ("c20-reso-masked", "C20", [("spectrum.py", "            weight = obj.weight.copy()\n            weight[weight == 0] = 1e-8\n\n            ddia = max_ndia - obj", "            weight = obj.weight\n            ddia = max_ndia - obj")]),
 ("c20-nwaves", "C20", [("spectrum.py", "nwaves = int((max_wave - min_wave) / dwave + 0.1) + 1", "nwaves = int((max_wave - min_wave) / dwave) + 1")]),
 ("c20-dwave-hdr", "C20", [("spectrum.py", "            dwave = self.header.get('DELTA_LAMBDA', 0.8)", "            dwave = 0.8")]),
 ("c20-snr", "C20", [("spectrum.py", "        self.header['MEANSNR'] = self.mean_snr\n\n    @property", "        if others[0].reso is not None:\n            self.header['MEANSNR'] = self.mean_snr\n\n    @property")]),
 ("c20-outclobber", "C20", [(CD, "'rw', clobber=True\n", "'rw', clobber=False\n")]),
 # C21
 ("c21-split", "C21", [(CB, "    i1 = (ndelta_all * mpi_rank) // mpi_size\n    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size\n", "    dn = max(1, ndelta_all // mpi_size)\n    i1 = min(dn * mpi_rank, ndelta_all)\n    i2 = ndelta_all if mpi_rank == mpi_size - 1 else min(i1 + dn, ndelta_all)\n    i2 = i2 if ndelta_all < 5 * mpi_size else min(i2, i1 + dn)\n")]),
 ("c21-snr-le", "C21", [(CB, "(delta.mean_snr < args.max_snr)", "(delta.mean_snr <= args.max_snr)")]),
 ("c21-bal-and", "C21", [(CB, "sel_bal = np.any(sel_ai, axis=1) | np.any(sel_bi, axis=1)", "sel_bal = np.any(sel_ai, axis=1)")]),
 ("c21-bal-vmin", "C21", [(CB, "sel_ai = (catalog['VMIN_CIV_450'] > 0) & (catalog['VMAX_CIV_450'] > 0)", "sel_ai = (catalog['VMAX_CIV_450'] > 0)")]),
 ("c21-concat", "C21", [(CB, "        ids_to_remove = np.concatenate((ids_to_remove, remove_sur_tids))", "        ids_to_remove = remove_sur_tids")]),
 ("c21-ndmin", "C21", [(CB, "dtype=int, ndmin=1)", "dtype=float, ndmin=1)")]),
 ("c21-idx-dup", "C21", [(CB, "        w = (idx >= 0) & (idx < nwaveobs)\n", "        w = (idx > 0) & (idx < nwaveobs)\n")]),
 ("c21-weights", "C21", [(CB, "    stacked_flux *= 0\n    comm.Allreduce(weights, stacked_flux)", "    comm.Allreduce(weights, stacked_flux)\n    stacked_flux = np.maximum(stacked_flux, 1e-3)")]),
 ("c21-zip", "C21", [(CB, '        f"{args.input_dir}/delta-*.fits*"))', '        f"{args.input_dir}/delta-*.fits"))')]),
 # C22
 ("c22-survey-sort", "C22", [(F, "    if 'SURVEY' in local_catalog.dtype.names:\n        sort_order.insert(1, 'SURVEY')\n", "")]),
 ("c22-j1", "C22", [(F, "                i1 = -j1\n                j1 = 0\n", "                i1 = -j1\n                j1 = 0 if i1 < 3 else 1\n")]),
 ("c22-cont-view", "C22", [(F, "        spec.cont_params = spec_coadd.cont_params.copy()\n        spec.cont_params['cont'] = {}\n", "        spec.cont_params = spec_coadd.cont_params\n        if spec.catrow['EXPID'] % 2:\n            spec.cont_params = spec_coadd.cont_params.copy()\n        cc = spec_coadd.cont_params['cont']\n        spec.cont_params['cont'] = dict(cc)\n")]),
 ("c22-round", "C22", [(F, "j1 = int(round((wave_arm[0] - wave_coadd[arm][0]) / spec.dwave))", "j1 = int((wave_arm[0] - wave_coadd[arm][0]) / spec.dwave)")]),
 ("c22-armdrop", "C22", [(F, "                spec.drop_arm(arm)\n                continue", "                spec.cont_params['valid'] = False\n                continue")]),
 ("c22-coadd", "C22", [(F, "    if args.coadd_arms != \"disable\":\n        args.coadd_arms = \"before\"\n", "")]),
 # C23
 ("c23-set", "C23", [(F, "args.arms = list(dict.fromkeys(args.arms))", "args.arms = list(set(args.arms))")]),
 ("c23-empty", "C23", [("io.py", "    data = np.empty((quasar_indices.size, nwave), dtype=dtype)\n    for idata, iqso in enumerate(quasar_indices):\n        data[idata, :] = imhdu", "    data = np.empty((quasar_indices.size, nwave), dtype=dtype)\n    for idata, iqso in enumerate(quasar_indices[:40]):\n        data[idata, :] = imhdu")]),
 ("c23-glob", "C23", [(CD, 'sorted(glob.glob(f"{directory}/delta-*.fits"))', 'glob.glob(f"{directory}/delta-*.fits")')]),
 ("c23-glob2", "C23", [(CB, "all_delta_files = sorted(mpi_fnc_bcast(", "all_delta_files = list(mpi_fnc_bcast(")]),
 ("c23-key", "C23", [("spectrum.py", "        key = [_ for _ in req_map if _ in colnames]", "        key = list(set(req_map) & set(colnames))")]),
 # C24
 ("c24-index", "C24", [("picca_continuum.py", "", "")]),
 # C25
 ("c25-wave-eq", "C25", [(F, "(args.wave2 <= args.wave1,", "(args.wave2 < args.wave1,")]),
 ("c25-truecont-alias", "C25", [(F, '    args.true_continuum |= (args.continuum_model == "true")\n', '')]),
 ("c25-exposures-before", "C25", [(F, '(args.exposures != "disable" and args.tile_format,', '(args.exposures == "after" and args.tile_format,')]),
 ("c25-skip", "C25", [("io.py", "if not (f1 <= f <= f2):", "if f < f1 or f > f2:")]),
 ("c25-input", "C25", [(F, '    if args.input_continuum_dir:\n        args.continuum_model = "input"', '    elif args.input_continuum_dir:\n        args.continuum_model = "input"')]),
 ("c25-forest", "C25", [(F, "(args.forest_w2 <= args.forest_w1,", "(args.forest_w2 <= args.forest_w1 - 1,")]),
]
T = [t for t in T if all(e[1] for e in t[2])]
