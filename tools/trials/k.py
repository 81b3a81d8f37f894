"""Trial bugs, eleventh set."""
SP, IO, MA, PC, MU = ("spectrum.py", "io.py", "masks.py",
                      "picca_continuum.py", "mpi_utils.py")
MT, CA, CL = "mathtools.py", "catalog.py", "calibration.py"
FIT, CAL, COA = ("scripts/qsonic_fit.py", "scripts/qsonic_calib.py",
                 "scripts/qsonic_coadd_deltas.py")
PM = "continuum_models/picca_continuum_model.py"
BM = "continuum_models/base_continuum_model.py"
T = [
("k02-argminlast", "C02", [(MU, "        min_idx = np.argmin(number_of_spectra)\n", "        min_idx = np.argmin(number_of_spectra[:64])\n")]),
("k02-i2", "C02", [(MU, "np.zeros(mpi_size, dtype=int)", "np.zeros(mpi_size, dtype='i2')")]),
("k02-count", "C02", [(MU, "number_of_spectra[min_idx] += cat.size", "number_of_spectra[min_idx] += 1")]),
("k03-parseexc", "C03", [(MU, "        except SystemExit:\n            args = -1\n", "        except SystemExit:\n            exit(0)\n")]),
("k03-exc", "C03", [(MU, "        except Exception as e:\n            logging.exception(e)\n            # Call", "        except (OSError, ValueError, KeyError, RuntimeError) as e:\n            logging.exception(e)\n            # Call")]),
("k03-none", "C03", [(MU, "    if result is _INVALID_VALUE:", "    if result is _INVALID_VALUE or result is None:")]),
("k03-emptyexp", "C03,C22", [(FIT, "    if not spectra_list:\n        args.exposures", "    if not spectra_list:\n        return []\n        args.exposures")]),
("k18-skipzero", "C18", [(FIT, "        spec.drop_short_arms(args.forest_w1, args.forest_w2, args.skip)\n\n    # Save", "        spec.drop_short_arms(args.forest_w1, args.forest_w2)\n\n    # Save")]),
("k18-maskdrop", "C18", [(FIT, "            masker.apply(spec)\n        spec.drop_short_arms()\n", "            masker.apply(spec)\n            spec.drop_short_arms()\n")]),
("k18-maskfirst", "C18", [(FIT, "        for masker in maskers:\n            masker.apply(spec)\n", "        for masker in maskers[:2]:\n            masker.apply(spec)\n")]),
("k18-zmin", "C18", [(FIT, "zmin_qso = args.wave1 / (args.forest_w2 - tol) - 1", "zmin_qso = args.wave1 / args.forest_w2 - 1")]),
("k18-etaone", "C18", [(FIT, "_one_function if args.eta_calib_ivar else qcfit.eta_interp", "qcfit.eta_interp")]),
("k18-etaone2", "C18", [(FIT, "_one_function if args.eta_calib_ivar else qcfit.eta_interp", "_one_function")]),
("k18-resmooth", "C18", [(FIT, "            spec.set_smooth_forestivar(spec._smoothing_scale)\n            spec.set_forest_weight", "            spec.set_forest_weight")]),
("k18-validcal", "C18", [(FIT, "add_varlss=True, no_eta=True)", "add_varlss=True, no_eta=False)")]),
("k18-chi2after", "C18", [(FIT, "            spec.coadd_arms_forest(qcfit.varlss_interp, eta_interp)\n            spec.calc_continuum_chi2()", "            spec.coadd_arms_forest(qcfit.varlss_interp, eta_interp)")]),
("k18-catvalid", "C18", [(FIT, "    qcfit.save_contchi2_catalog(spectra_list)\n\n    # Keep", "    qcfit.save_contchi2_catalog(valid_spectra)\n\n    # Keep")]),
("k22-slice", "C22", [(FIT, "            if j1 < 0:\n                i1 = -j1\n                j1 = 0\n", "            if j1 < 0:\n                j1 = 0\n")]),
("k22-j2", "C22", [(FIT, "            j2 = wave_coadd[arm].size - j2\n", "            j2 = j1 + wave_arm.size\n")]),
("k22-valid", "C22", [(FIT, "                spec.cont_params['valid'] = False\n\n    etime", "                spec_coadd.cont_params['valid'] = False\n\n    etime")]),
("k22-shallow", "C22", [(FIT, "        spec.cont_params = spec_coadd.cont_params.copy()\n        spec.cont_params['cont'] = {}", "        spec.cont_params = spec_coadd.cont_params\n        spec.cont_params['cont'] = dict(spec.cont_params['cont'])")]),
("k22-survcat", "C22", [(FIT, "        sort_order.insert(1, 'SURVEY')\n    idx", "        sort_order.append('SURVEY')\n    idx")]),
("k11-x0", "C11", [(PM, "        x0 = np.zeros_like(spec.cont_params['x'])\n        x0[0] = a0\n        mini = Minuit", "        x0 = spec.cont_params['x'].copy()\n        x0[0] = max(a0, x0[0])\n        mini = Minuit")]),
("k11-logn", "C11", [(PM, "            ) - np.log(weight[w]).sum()", "            ) - np.log(weight[w]).mean() * wave_arm.size")]),
("k11-mfcont", "C11", [(PM, "            cont_est *= self.meanflux_interp(wave_arm)\n\n            var_lss", "            var_lss")]),
("k19-mock", "C19", [(FIT, "        maxlastnight = comm.allreduce(maxlastnight, max)\n", "        maxlastnight = comm.bcast(maxlastnight)\n")]),
("k13-empty", "C13", [(PC, "        norm_flux[~w] = np.mean(norm_flux[w])\n", "        norm_flux[~w] = 0\n")]),
("k13-norm", "C13", [(PC, "        std_flux /= mean_\n", "")]),
("k13-nbins", "C25", [(PC, "        self.nbins = int(round(\n            (args.forest_w2 - args.forest_w1) / args.rfdwave))", "        self.nbins = int(\n            (args.forest_w2 - args.forest_w1) / args.rfdwave)")]),
("k13-first", "C13,C18", [(PC, "            if self.varlss_fitter:\n                self.update_var_lss_eta(spectra_list)\n\n            if has_converged:\n                logging.info(\"Iteration has converged.\")\n                break\n", "            if has_converged:\n                logging.info(\"Iteration has converged.\")\n                break\n\n            if self.varlss_fitter:\n                self.update_var_lss_eta(spectra_list)\n")]),
("k13-fidep", "C03", [(PC, "            if not np.allclose(np.diff(waves), dwave):", "            if not np.allclose(np.diff(waves), dwave, rtol=1):")]),
("k18-noreset", "C18", [(PC, "        self.varlss_fitter.reset()\n\n        for spec", "        if self.mpi_rank:\n            self.varlss_fitter.reset()\n\n        for spec")]),
("k18-firstarm", "C18", [(PC, "            for arm, wave_arm in spec.forestwave.items():\n                cont = spec.cont_params['cont'][arm]\n                delta", "            for arm, wave_arm in list(spec.forestwave.items())[:2]:\n                cont = spec.cont_params['cont'][arm]\n                delta")]),
("k18-ivarsm", "C18", [(PC, "ivar = spec.forestivar[arm] * cont**2", "ivar = spec.forestivar_sm[arm] * cont**2")]),
("k18-stackreset", "C18", [(PC, "        self.flux_stacker.reset()\n\n        self.model", "        if self.mpi_rank != 1:\n            self.flux_stacker.reset()\n\n        self.model")]),
("k18-finalnorm", "C18", [(PC, "            self.fit_final_varlss(spectra_list)\n", "            self.fit_final_varlss(spectra_list[::2])\n")]),
]
