"""Trial bugs, seventh set."""
SP, IO, MA, PC, MU = ("spectrum.py", "io.py", "masks.py",
                      "picca_continuum.py", "mpi_utils.py")
MT, CA, CL = "mathtools.py", "catalog.py", "calibration.py"
FIT, CAL, COA = ("scripts/qsonic_fit.py", "scripts/qsonic_calib.py",
                 "scripts/qsonic_coadd_deltas.py")
PM = "continuum_models/picca_continuum_model.py"
T = [
("g01-tile-nside", "C01", [(CA, "n_side = 16 if is_mock else 64", "n_side = 16 if is_mock or is_tile else 64")]),
("g01-dup-late", "C01", [(CA, """    if not is_tile and nqso != np.unique(catalog['TARGETID']).size:
        raise""", """    zz = catalog['Z'] > 0
    if not is_tile and zz.sum() != np.unique(catalog['TARGETID'][zz]).size:
        raise""")]),
("g01-hpxzero", "C01", [(CA, "    if 'HPXPIXEL' not in keep_columns:\n", "    if 'HPXPIXEL' not in keep_columns or not catalog['HPXPIXEL'].all():\n        if 'HPXPIXEL' in keep_columns:\n            from numpy.lib.recfunctions import drop_fields\n            catalog = drop_fields(catalog, 'HPXPIXEL', usemask=False)\n")]),
("g02-group-split", "C02", [(CA, "        split_catalog = np.split(catalog, s[1:])\n", "        split_catalog = np.split(catalog, s[1:])\n        if mpi_size > 2 * unique_pix.size:\n            split_catalog = [x for y in split_catalog\n                             for x in np.array_split(y, 2) if x.size]\n")]),
("g04-missing-mid", "C04", [(IO, "    idx_fbr = idx_fbr[targetids_fbr.argsort()]\n", "    if fbrmap_columns == ['TARGETID'] and idx_fbr.size < 3:\n        pass\n    else:\n        idx_fbr = idx_fbr[targetids_fbr.argsort()]\n")]),
("g04-resocache", "C04", [(IO, "    with fitsio.FITS(fspec) as fitsfile:\n        for arm in arms_to_keep:\n            data['reso'][arm] = np.array(fitsfile[f'{arm}_RESOLUTION'].read())\n", "    cache = read_onehealpix_file_mock.__dict__.setdefault('cache', {})\n    with fitsio.FITS(fspec) as fitsfile:\n        for arm in arms_to_keep:\n            key = (arm, input_dir)\n            if key not in cache:\n                cache[key] = np.array(fitsfile[f'{arm}_RESOLUTION'].read())\n            data['reso'][arm] = cache[key]\n")]),
("g09-contmask", "C09", [(SP, "                coadd_cont[idx] = self.cont_params['cont'][arm]\n", "                w = self.forestweight[arm] > 0\n                coadd_cont[idx[w]] = self.cont_params['cont'][arm][w]\n")]),
("g09-resoivar", "C09", [(SP, "                weight = self.forestweight[arm].copy()\n                weight[weight == 0] = 1e-8\n", "                weight = self.forestweight[arm].copy()\n                weight[weight < 1e-3] = 1e-8\n")]),
("g09-snrarm", "C09", [(SP, "np.sqrt(coadd_ivar), coadd_flux) / max(1, np.sum(coadd_ivar > 0))\n        self.mean_snr = {'brz'", "np.sqrt(coadd_ivar), coadd_flux) / max(1, nwaves)\n        self.mean_snr = {'brz'")]),
("g09-simplenorm", "C09", [(SP, "            coadd_norm *= 0\n\n            for arm, reso_arm in self.reso.items():", "            coadd_norm *= 1\n\n            for arm, reso_arm in self.reso.items():")]),
("g10-argmax", "C10", [(SP, "        central_idx = reso.argmax()\n", "        central_idx = reso.size // 2\n")]),
("g10-resow", "C10", [(SP, "        lambda_eff = np.dot(self.forestwave[arm], weight) / total_weight\n", "        lambda_eff = np.mean(self.forestwave[arm])\n")]),
("g10-chi2arm", "C10", [(SP, "        for arm, wave_arm in self.forestwave.items():\n            cont_est = self.cont_params['cont'][arm]\n            weight = self.forestweight[arm]\n", "        for arm, wave_arm in self.forestwave.items():\n            cont_est = self.cont_params['cont'][arm]\n            weight = self.forestweight[arm]\n            if not self.mean_snr[arm] > 0:\n                continue\n")]),
("g17-extname", "C17,C22", [(SP, "extname=f\"{self.targetid}-{arm}{expid}\"", "extname=f\"{self.targetid}-{arm}{expid}\"[:26]")]),
("g17-hdrleak", "C17", [(SP, "            hdr_dict['MEANSNR'] = self.mean_snr[arm]\n\n", "            hdr_dict['MEANSNR'] = max(self.mean_snr.values())\n\n")]),
("g20-lssw", "C20", [(SP, "            w = (obj.weight > 0) & (obj.ivar > 0)\n            var[w] = 1 / obj.ivar[w]\n", "            w = obj.ivar > 0\n            var[w] = 1 / obj.ivar[w]\n")]),
("g20-snrnorm", "C20", [(SP, "        ) / max(1, np.sum(coadd_ivar > 0))\n        self.header['MEANSNR']", "        ) / max(1, coadd_ivar.size)\n        self.header['MEANSNR']")]),
("g20-blindself", "C20,C19", [(SP, "        for obj in all_deltas:\n            if obj._is_blinded and", "        for obj in all_deltas[:2]:\n            if obj._is_blinded and")]),
("g20-lastsingle", "C20", [(SP, "        max_wave = max(obj.wave[-1] for obj in all_deltas)\n\n        nwaves = int((max_wave - min_wave) / dwave + 0.1) + 1\n        coadd_wave = np.linspace(min_wave, max_wave, nwaves)\n        coadd_delta", "        max_wave = max(obj.wave[-1] for obj in all_deltas)\n\n        nwaves = int((max_wave - min_wave) / dwave + 0.1) + 1\n        coadd_wave = np.float32(min_wave) + dwave * np.arange(nwaves)\n        coadd_delta")]),
("g08-allclose", "C08", [(CL, "        if not np.allclose(np.diff(waves), dwave):\n            raise Exception(\n                \"Failed to construct noise", "        if not np.allclose(np.diff(waves), dwave, rtol=.2):\n            raise Exception(\n                \"Failed to construct noise")]),
("g08-neg", "C08", [(CL, "                    spec.forestivar[arm] /= eta\n", "                    spec.forestivar[arm] /= np.abs(eta)\n")]),
("g08-dtype", "C08", [(CL, "stacked_flux = np.array(data['stacked_flux'], dtype='d')", "stacked_flux = np.array(data['stacked_flux'], dtype='f4').astype('d')")]),
("g18-rsnr0", "C18", [(FIT, "spec.rsnr >= args.min_rsnr", "spec.rsnr > args.min_rsnr")]),
("g18-fsnr", "C18", [(FIT, "if spec.get_effective_meansnr() >= args.min_forestsnr]", "if max(spec.mean_snr.values(), default=0) >= args.min_forestsnr]")]),
("g18-shortafter", "C18", [(FIT, "        spec.drop_short_arms()\n    etime", "        if len(spec.forestwave) > 1:\n            spec.drop_short_arms()\n    etime")]),
("g18-nofinal", "C18", [(FIT, "        spec.drop_short_arms(args.forest_w1, args.forest_w2, args.skip)\n", "        if args.coadd_arms == 'disable':\n            spec.drop_short_arms(args.forest_w1, args.forest_w2, args.skip)\n")]),
("g22-contshare", "C22", [(FIT, "        spec.cont_params = spec_coadd.cont_params.copy()\n", "        spec.cont_params = spec_coadd.cont_params\n")]),
("g22-survey", "C22", [(FIT, "        sort_order.insert(1, 'SURVEY')\n    idx_sort", "        pass\n    idx_sort")]),
("g03-maxnight", "C03,C19", [(FIT, "        maxlastnight = comm.allreduce(maxlastnight, max)\n", "        maxlastnight = comm.bcast(maxlastnight)\n")]),
("g18-smooth", "C18", [(FIT, "            spec.set_smooth_forestivar(spec._smoothing_scale)\n            spec.set_forest_weight", "            spec.set_forest_weight")]),
]
