"""Trial bugs, eighth set."""
SP, IO, MA, PC, MU = ("spectrum.py", "io.py", "masks.py",
                      "picca_continuum.py", "mpi_utils.py")
MT, CA, CL = "mathtools.py", "catalog.py", "calibration.py"
FIT, CAL, COA = ("scripts/qsonic_fit.py", "scripts/qsonic_calib.py",
                 "scripts/qsonic_coadd_deltas.py")
IM, TM = ("continuum_models/input_continuum_model.py",
          "continuum_models/true_continuum_model.py")
BM = "continuum_models/base_continuum_model.py"
T = [
("h06-skyz", "C06", [(MA, "wave_arm / (1.0 + spec.z_qso),\n                [self.mask_rest", "wave_arm / (1.0 + np.float32(spec.z_qso)).astype('f2'),\n                [self.mask_rest")]),
("h06-skyflip", "C06", [(MA, "            mask_idx_ranges = np.concatenate((m1, m2))\n", "            mask_idx_ranges = np.concatenate((m1, m2))[:64]\n")]),
("h06-skyclip", "C06", [(MA, "            for idx1, idx2 in mask_idx_ranges:\n                w[idx1:idx2] = 1\n\n            spec.forestflux[arm][w] = 0\n            spec.forestivar[arm][w] = 0\n\n\nclass BAL", "            for idx1, idx2 in mask_idx_ranges:\n                if idx2 < w.size or idx1 > 0:\n                    w[idx1:idx2] = 1\n\n            spec.forestflux[arm][w] = 0\n            spec.forestivar[arm][w] = 0\n\n\nclass BAL")]),
("h06-balor", "C06", [(MA, "        w = (min_velocities > 0) & (max_velocities > 0)\n", "        w = (min_velocities > 0) & (max_velocities > min_velocities)\n")]),
("h06-balzero", "C06", [(MA, "        w = (min_velocities > 0) & (max_velocities > 0)\n", "        w = max_velocities > 0\n")]),
("h06-balmerge", "C06", [(MA, "(spec.catrow['VMIN_CIV_450'], spec.catrow['VMIN_CIV_2000']))", "(spec.catrow['VMIN_CIV_450'], spec.catrow['VMIN_CIV_450']))"),(MA, "(spec.catrow['VMAX_CIV_450'], spec.catrow['VMAX_CIV_2000']))", "(spec.catrow['VMAX_CIV_450'], spec.catrow['VMAX_CIV_450']))")]),
("h07-single", "C07", [(MA, "        for z_dla, nhi in spec_dlas[['Z_DLA', 'NHI']]:\n", "        for z_dla, nhi in np.unique(spec_dlas[['Z_DLA', 'NHI']]):\n")]),
("h07-limle", "C07", [(MA, "            w = transmission < self.dla_mask_limit\n", "            w = transmission < 0.8\n")]),
("h07-sorted", "C07", [(MA, "        w = np.nonzero(self.unique_targetids == spec.targetid)[0]\n", "        w = np.nonzero(self.unique_targetids.astype(float) == float(spec.targetid))[0]\n")]),
("h07-zprio", "C07", [(MA, 'accepted_zcolnames = ["Z_DLA", "Z"]', 'accepted_zcolnames = ["Z", "Z_DLA"]')]),
("h07-lybcut", "C07", [(MA, "        tau += DLAMask.get_optical_depth(\n            wave_rf, DLAMask.wave_lyb_A, nhi, b,\n            DLAMask.f12_lyb, DLAMask.A12_lyb)\n", "        if wave_rf[0] < DLAMask.wave_lyb_A:\n            tau += DLAMask.get_optical_depth(\n                wave_rf, DLAMask.wave_lyb_A, nhi, b,\n                DLAMask.f12_lyb, DLAMask.A12_lyb)\n")]),
("h07-maxnhi", "C07", [(MA, "        transmission = np.ones(wave.size)\n", "        transmission = np.ones(wave.size)\n        spec_dlas = spec_dlas[spec_dlas['NHI'] < 22.5]\n")]),
("h07-foreground", "C07", [(MA, "            transmission *= DLAMask.get_dla_flux(wave, z_dla, nhi)\n", "            if z_dla > 0 and (1 + z_dla) * 1215.67 < wave[-1]:\n                transmission *= DLAMask.get_dla_flux(wave, z_dla, nhi)\n")]),
("h07-ivar1", "C07", [(MA, "            spec.forestivar[arm] *= transmission**2", "            spec.forestivar[arm] *= transmission**2 if len(spec_dlas) < 3 else transmission")]),
("h07-splitempty", "C07", [(MA, "            w = np.isin(catalog['TARGETID'], local_targetids)\n", "            w = np.isin(catalog['TARGETID'], np.unique(local_targetids)[:-1])\n")]),
("h12-nested", "C12", [(IM, "lonlat=True, nest=True)\n\n        # local", "lonlat=True, nest=self.nside >= 8)\n\n        # local")]),
("h12-order", "C12", [(IM, "idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])\n        spectra_list = np.array(spectra_list)[idx_sort]", "idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])\n        spectra_list = np.array(sorted(spectra_list, key=lambda s: (s.hpix, s.targetid)))")]),
("h12-anyall", "C12", [(IM, "if any(cont_est <= 0) or any(np.isnan(cont_est)):", "if any(cont_est <= 0) or all(np.isnan(cont_est)):")]),
("h12-median", "C12", [(IM, "if any(cont_est <= 0) or any(np.isnan(cont_est)):", "if np.median(cont_est) <= 0 or any(np.isnan(cont_est)):")]),
("h12-armlocal", "C12", [(IM, "                spec.cont_params['valid'] = False\n                break\n", "                spec.cont_params['valid'] = arm != list(spec.forestwave)[-1]\n                break\n")]),
("h12-mismatch", "C12", [(IM, "if fbrmap.size != continua.shape[0]:", "if fbrmap.size > continua.shape[0]:")]),
("h12-mfonce", "C12", [(IM, "            cont_est *= self.meanflux_interp(wave_arm)\n", "            cont_est *= self.meanflux_interp(np.clip(wave_arm, None, 5000.))\n")]),
("h12-truemf", "C12", [(TM, "            cont_est *= self.meanflux_interp(wave_arm)\n", "            cont_est = cont_est * np.minimum(self.meanflux_interp(wave_arm), 1)\n")]),
("h12-truethin", "C12", [(TM, "tcont_interp = FastCubic1DInterp(w1, dwave, tcont)", "tcont_interp = FastCubic1DInterp(w1, 2 * dwave, tcont[::2])")]),
("h12-dofstale", "C12", [(TM, "            spec.cont_params['dof'] = spec.get_real_size()\n", "            spec.cont_params['dof'] = sum(map(len, spec.forestwave.values()))\n")]),
("h21-skipneg", "C21", [(CAL, "        w = (idx >= 0) & (idx < nwaveobs)\n", "        w = (idx < nwaveobs)\n")]),
("h21-floor", "C21", [(CAL, "np.round((delta.wave - args.wave1) / dwave).astype(int)", "((delta.wave - args.wave1) / dwave).astype(int)")]),
("h21-balall", "C21", [(CAL, "np.any(sel_ai, axis=1) | np.any(sel_bi, axis=1)", "sel_ai[:, 0] | sel_bi[:, 0]")]),
("h21-survey1", "C21", [(CAL, "np.isin(catalog['SURVEY'], args.keep_surveys)", "catalog['SURVEY'] == args.keep_surveys[0]")]),
("h21-listcat", "C21", [(CAL, "        ids_to_remove = np.concatenate((ids_to_remove, remove_sur_tids))\n", "        ids_to_remove = remove_sur_tids if remove_sur_tids.size > 2 else np.concatenate((ids_to_remove, remove_sur_tids))\n")]),
("h21-snrle", "C21", [(CAL, "            and (delta.mean_snr > args.min_snr)\n", "            and (delta.mean_snr > args.min_snr or args.min_snr <= 0)\n")]),
("h21-dwavefirst", "C21", [(CAL, "    dwave = comm.allreduce(dwave, max)\n", "    dwave = comm.bcast(dwave)\n")]),
("h21-remain", "C21", [(CAL, "    i1 = (ndelta_all * mpi_rank) // mpi_size\n    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size\n", "    n1 = -(-ndelta_all // mpi_size)\n    i1 = n1 * mpi_rank\n    i2 = min(n1 * (mpi_rank + 1), ndelta_all - 1) if mpi_size > 5 else n1 * (mpi_rank + 1)\n")]),
("h21-gz", "C21", [(CAL, 'delta-*.fits*"', 'delta-*.fits"')]),
("h20-ring", "C20", [(COA, "lonlat=True, nest=args.nest)", "lonlat=True, nest=args.nest or args.nside > 8)")]),
("h20-pair", "C20", [(COA, "            delta.coadd(others)\n", "            for other in others:\n                delta.coadd([other])\n")]),
("h20-clobber", "C20", [(COA, "'rw', clobber=True", "'rw', clobber=False")]),
("h20-dictleft", "C20", [(COA, "        fnames.extend(sorted(glob.glob(f\"{directory}/delta-*.fits\")))\n", "        fnames.extend(sorted(glob.glob(f\"{directory}/delta-[0-9]*[0-9].fits\")))\n")]),
("h20-uniqname", "C20", [(COA, "    with Pool(processes=nproc) as pool:\n        deltas = pool.map(qsonic.io.read_deltas, fnames)\n", "    fnames = list({os.path.basename(f): f for f in fnames}.values()) if len(directories) > 2 else fnames\n    with Pool(processes=nproc) as pool:\n        deltas = pool.map(qsonic.io.read_deltas, fnames)\n"), (COA, "import functools\n", "import functools\nimport os\n")]),
]
