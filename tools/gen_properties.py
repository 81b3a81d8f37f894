"""Regenerates /verif/properties.jsonl (run by hand after editing)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


Q = "py/qsonic/"
NUMBA = ("Only the catalogue and MPI-utility tests run here (four of them); "
         "every other test file needs a compiler package that is absent. ")

prop("C01", "Catalogue reading selects, completes and orders quasars exactly",
     "Reading a quasar catalogue returns exactly the input rows whose redshift lies in the closed interval [zmin, zmax] and, when surveys are requested and the table has a survey column, whose survey is one of them, each with unchanged values in every recognised column. Alternative names of the coordinate and last-night columns are normalised, a missing HEALPix column is computed in NESTED order from RA/DEC with nside 16 for mocks and 64 for data (an existing one is kept), and rows are sorted by HEALPix, then survey when more than one survey is kept, then TARGETID (by tile, petal, TARGETID in tile mode). Duplicate targets (duplicate target-tile pairs in tile mode), missing required columns, unreadable files and empty selections raise an error instead of returning a catalogue.",
     ["inputs", "configurations"],
     "all catalogue files (any row order, column subset, aliases, extra columns, HDU name/position) and all mock/tile/survey/redshift options",
     "The tests read one three-row catalogue with a handful of option combinations; row order, duplicates, aliases, boundaries and HEALPix completion range over all tables.",
     [Q + "catalog.py"],
     [("catalogue reader", "read_quasar_catalog, mpi_read_quasar_catalog"),
      ("column validation and renaming", "_validate_adjust_column_names"),
      ("selection, healpix and sort", "_prime_catalog, _add_healpix")],
     ["returned structured array vs the rows written to the FITS file"])

prop("C02", "Work distribution gives every quasar to exactly one MPI rank",
     "Splitting a catalogue over any number of MPI processes hands every selected quasar to exactly one process, keeps all quasars of one HEALPix (one tile in tile mode) together in a single sorted group on one process, and leaves no process without work when there are at least as many groups as processes. Loads are balanced greedily, largest group first: no process exceeds the lightest by more than the size of its own smallest group. Nothing is lost, duplicated or altered by the distribution.",
     ["inputs", "schedules", "configurations"],
     "all catalogues, group-size distributions, numbers of processes and arrival orders at the collectives",
     "The tests call the load balancer once on a short hand-made list with one process count and the queue function under one process.",
     [Q + "catalog.py", Q + "mpi_utils.py"],
     [("local queue", "catalog.mpi_get_local_queue"),
      ("load balancing", "mpi_utils.balance_load")],
     ["queues returned on every rank"])

prop("C03", "All MPI ranks agree: same collectives, same outcome, no hang",
     "Every MPI process of the three programs and of the broadcasting helpers takes part in the same sequence of collective operations and finishes with the same kind of outcome. When the master fails to read a file or evaluate a function (of any callable kind), every process raises the documented error with the given message; when the command line is rejected every process exits and nothing is written. No process is ever left waiting in a collective that another process will not enter, and values produced on the master arrive equal on every process.",
     ["schedules", "fault_sequences", "configurations"],
     "all process counts, arrival orders, and all failures of the master's reads (missing, truncated, wrong-content files) in every program option that reads a file",
     "The tests use a single process and one failing function; lockstep of collectives and fault propagation only show with several processes and injected faults.",
     [Q + "mpi_utils.py", Q + "catalog.py", Q + "masks.py", Q + "calibration.py", Q + "picca_continuum.py", Q + "scripts/qsonic_fit.py", Q + "scripts/qsonic_calib.py"],
     [("run-and-broadcast helper", "mpi_utils.mpi_fnc_bcast"),
      ("argument parsing on master", "mpi_utils.mpi_parse"),
      ("catalogue scatter", "catalog.mpi_get_local_queue")],
     ["trace of collective calls per rank, outcome per rank"])

prop("C04", "Every spectrum read belongs to its own catalogue row",
     "For mock, survey-coadd, single-exposure and tile inputs, each object returned by the reader carries the wavelength, flux, inverse variance, mask, resolution and (for mocks) true continuum that its own TARGETID (and exposure) has in the file of its own HEALPix, survey or tile-petal, together with its own catalogue row. This holds regardless of the order of rows in the files, extra targets in them, several surveys in one HEALPix and the set of arms requested. Targets absent from a file are skipped with a warning and never shift the data of the others; a target that is present is never dropped or returned twice.",
     ["inputs", "configurations"],
     "all file row orders, extra/missing targets, exposures per target, surveys per HEALPix, arms and resolution options",
     NUMBA + "Those that exist read one healpix file with a few targets in one order.",
     [Q + "io.py", Q + "spectrum.py"],
     [("reader selection", "io.get_spectra_reader_function"),
      ("per-format readers", "io.read_onehealpix_file_mock, read_onehealpix_file_data_coadd, read_onehealpix_file_data_uncoadd, read_onetile_coaddfile_data")],
     ["values tagged with target/arm/pixel identity in synthetic files"])

prop("C05", "Bad pixels never count and forest limits and S/N are exact",
     "Constructing a spectrum zeroes flux and inverse variance exactly at pixels with a non-zero mask, NaN flux or inverse variance, or negative inverse variance, leaves all other pixels and the caller's arrays unchanged, and later processing of one spectrum never changes another spectrum or the input. Setting the forest region keeps, per arm, exactly the pixels with wavelength in [max(w1,(1+z)r1), min(w2,(1+z)r2)) and only arms with a usable pixel; the red-side S/N, per-arm and effective forest S/N, usable-pixel count, length cut and short-arm removal are the documented functions of the unmasked pixels. All of these are finite for every input whose unmasked values are not infinite.",
     ["inputs", "histories"],
     "all flux/ivar/mask contents, redshifts, region limits (including edges that hit a pixel exactly), arms and sequences of calls",
     NUMBA + "They construct one constant spectrum on one grid.",
     [Q + "spectrum.py"],
     [("construction and bad-pixel policy", "Spectrum.__init__, from_dictionary"),
      ("forest region", "Spectrum.set_forest_region"),
      ("S/N and length", "get_effective_meansnr, get_real_size, is_long, drop_short_arms, slice, drop_arm")],
     ["public attributes of Spectrum"])

prop("C06", "Sky and BAL masks zero exactly the documented wavelength windows",
     "Applying a sky mask zeroes flux and inverse variance at exactly the pixels whose observed (OBS rows) or rest-frame (RF rows) wavelength lies in [min, max) of some row; applying a BAL mask zeroes exactly the pixels in [line(1+z)(1-vmax/c), line(1+z)(1-vmin/c)) for every listed line and every catalogue trough with both velocities positive, whichever order the two velocities are in. All other pixels, wavelengths, resolution and other spectra stay untouched, the operation is idempotent and independent of the order of masks, and BAL masking without the needed catalogue columns is refused.",
     ["inputs"],
     "all mask tables, trough velocities, redshifts and wavelength grids",
     NUMBA + "They check one or two mask rows on one grid.",
     [Q + "masks.py"],
     [("sky mask", "SkyMask.apply"), ("BAL mask", "BALMask.apply, BALMask.check_catalog")],
     ["forest flux/ivar before and after"])

prop("C07", "DLA masking uses the sightline's own DLAs and corrects wings exactly",
     "For a sightline with DLAs in the DLA catalogue, pixels blueward of the quasar's Lya line whose combined Lya+Lyb transmission of all and only its own DLAs is below the limit are zeroed in flux and inverse variance; the remaining blueward pixels have flux divided and inverse variance multiplied by the transmission and its square, and redward pixels and sightlines without DLAs are unchanged. The result does not depend on the order of rows in the DLA catalogue, on which sightlines are local to a process, or on which accepted redshift column name is used. The transmission lies in [0, 1], decreases with column density and agrees with a Voigt absorption profile.",
     ["inputs", "configurations"],
     "all DLA catalogues (any order, several DLAs per sightline, either redshift column), redshifts, column densities and limits",
     NUMBA + "They apply a single DLA to one spectrum.",
     [Q + "masks.py"],
     [("DLA transmission", "DLAMask.get_dla_flux, get_all_dlas, get_optical_depth"),
      ("grouping by target and application", "DLAMask.__init__, DLAMask.apply")],
     ["forest flux/ivar before and after"])

prop("C08", "Noise and flux calibration rescale exactly and preserve S/N",
     "Noise calibration divides forest inverse variance by the interpolated eta and touches nothing else; with additive variance it maps i to i/(eta + i*varlss*C^2), never producing a negative value, and refuses spectra without a continuum. Flux calibration divides flux by s and multiplies inverse variance by s^2 so that flux*sqrt(ivar) is preserved. Zero entries of the calibration tables act as one, masked pixels stay masked, unevenly spaced or missing tables are rejected on every process, and values at the table nodes are reproduced exactly.",
     ["inputs", "configurations"],
     "all calibration tables, spectra, continua and orders of application",
     NUMBA + "They use constant tables on a single spectrum.",
     [Q + "calibration.py", Q + "scripts/qsonic_fit.py"],
     [("noise calibration", "NoiseCalibrator"), ("flux calibration", "FluxCalibrator"),
      ("pipeline application", "qsonic_fit.mpi_noise_flux_calibrate")],
     ["forest flux/ivar before and after"])

prop("C09", "Arm coaddition is an inverse-variance average on one grid",
     "Coadding the arms of a spectrum (whole spectrum or forest) yields one evenly spaced grid from the first to the last wavelength on which every pixel holds the weighted mean of the contributing arm pixels, with inverse variance (sum w)^2/sum(w^2/ivar), resolution averaged with the same weights (equal weights where all are zero), the arm continuum, weights recomputed from the coadded values, and the S/N of the coadd. Masked pixels contribute nothing, pixels covered by one arm are unchanged, the result does not depend on the order of arms, and every output is finite and determined by the input alone, also where arms overlap, do not touch, or differ in resolution width.",
     ["inputs", "configurations"],
     "all arm overlaps and gaps, masks, weights, continua, grid spacings, resolution widths and arm orders",
     NUMBA + "They coadd two constant arms with one overlap.",
     [Q + "spectrum.py"],
     [("whole-spectrum coadd", "Spectrum.simple_coadd"), ("forest coadd", "Spectrum.coadd_arms_forest")],
     ["public attributes before and after; uninitialised memory poisoned"])

prop("C10", "Weights, smoothing and chi2 follow their definitions at every pixel",
     "After setting weights, every pixel has w = i/(eta + i*varlss*C^2) with i the (smoothed) inverse variance, so 0 <= w and w = 0 exactly where the pixel is masked, and w equals i when no valid continuum exists. Smoothing keeps masked pixels at zero and outlier pixels at their own value, returns positive finite values elsewhere, leaves constant noise and the unsmoothed inverse variance unchanged, and is undone by a non-positive scale. chi2 is the sum over arms of w(f-C)^2, or -1 without a valid continuum, and the mean resolution is the weighted Gaussian width in km/s.",
     ["inputs", "histories"],
     "all inverse-variance arrays, masks, continua, interpolators, smoothing scales and call sequences",
     NUMBA + "They check a constant array and one weight evaluation.",
     [Q + "spectrum.py", Q + "mathtools.py"],
     [("weights", "Spectrum.set_forest_weight"), ("smoothing", "Spectrum.set_smooth_forestivar, mathtools.get_smooth_ivar, fft_gaussian_smooth"),
      ("chi2", "Spectrum.calc_continuum_chi2"), ("outlier mask", "mathtools.get_median_outlier_mask")],
     ["public attributes"])

prop("C11", "A valid continuum fit is the positive best fit of the model",
     "When fitting reports a spectrum as valid, its continuum equals mean-continuum(rest wavelength) times a polynomial in scaled log-wavelength times mean flux at its reported parameters, is nowhere negative, and those parameters minimise the documented cost (weighted squared residual minus sum of log weights) under the current variance and eta functions. Weights, chi2 and degrees of freedom are those of that continuum. A failed or partly negative fit is reported invalid with no continuum and chi2 = -1, never contributes to stacks or variance statistics, and a run with no valid fit on any process raises on all of them.",
     ["inputs", "histories", "configurations"],
     "all spectra (noise, slopes, masks, redshifts), polynomial orders, minimisers, mean continua and variance functions, repeated fits",
     NUMBA + "They fit a few noiseless spectra once.",
     [Q + "continuum_models/picca_continuum_model.py", Q + "picca_continuum.py"],
     [("per-spectrum fit", "PiccaContinuumModel.fit_continuum"), ("model", "PiccaContinuumModel.get_continuum_model"),
      ("all spectra", "PiccaContinuumFitter.fit_continua")],
     ["cont_params of every spectrum, independent minimiser"])

prop("C12", "True and input continua are assigned to the right quasar or rejected",
     "In true-continuum mode every spectrum's continuum is its own tabulated true continuum interpolated at the observed wavelength times the mean flux, with weights from the fiducial variance. In input-continuum mode it is the own target's tabulated rest-frame continuum at wavelength/(1+z) times the mean flux; targets missing from their file, whose file is unreadable, or whose continuum is non-positive or NaN anywhere in the forest are invalid and saved nowhere. The assignment does not depend on the order of spectra or of rows in the files.",
     ["inputs", "configurations"],
     "all continuum files (orders, missing targets or files, bad values), redshifts, forests and mean-flux tables",
     NUMBA + "They use a two-row input file in sorted order.",
     [Q + "continuum_models/true_continuum_model.py", Q + "continuum_models/input_continuum_model.py", Q + "io.py"],
     [("true continuum", "TrueContinuumModel.fit_continuum"), ("input continuum", "InputContinuumModel.init_spectra, fit_continuum")],
     ["cont_params of every spectrum"])

prop("C13", "Stacked flux and mean continuum are the weighted means over all ranks",
     "After stacking, every observed and rest-frame bin holds the weighted mean of the values added to it by all processes (zero if none), with error one over the root of summed weight in the rest frame. Each update leaves a mean continuum that integrates to one and is orthogonal to the fitted polynomial orders in scaled log-wavelength, identical on every process and independent of how spectra are distributed among processes, and a fixed point when the residual stack is flat; the iteration counts as converged when every relative change is below a third of its error, and not while changes are large. Forcing the stacked flux to one multiplies each valid continuum by the stack and nothing else; eta calibration of inverse variance divides by eta.",
     ["inputs", "schedules", "histories"],
     "all spectra, distributions of spectra over processes, process counts, reset/add/calculate sequences and bin layouts",
     NUMBA + "They stack constants on one process.",
     [Q + "picca_continuum.py", Q + "continuum_models/base_continuum_model.py"],
     [("stacker", "FluxStacker"), ("mean continuum update", "PiccaContinuumFitter.update_mean_cont"),
      ("post-processing", "PiccaContinuumFitter.iterate")],
     ["stacker and mean continuum after every update on every rank"])

prop("C14", "Variance statistics equal the jackknife of the added pixels",
     "After adding deltas, the pixel and quasar counts, mean delta, variance of delta, fourth-moment error, mean pipeline variance and delete-one jackknife errors (and covariances) of every wavelength-variance bin equal a direct computation from the added pixels, each pixel counted once in the bin that contains it; bins are about 120 A wide unless their number is given. Fits of var_lss and eta solve the weighted least-squares problem of those statistics within [0, 2], need the documented minimum pixels and quasars, extrapolate failed bins and fail loudly above 40% failures. Results are the same on every process, and means and counts do not depend on how spectra are distributed.",
     ["inputs", "histories", "schedules"],
     "all delta samples, bin layouts, subsample counts, process counts, reset/add/fit sequences",
     NUMBA + "They add a few arrays on one process with one binning.",
     [Q + "picca_continuum.py", Q + "mathtools.py"],
     [("statistics", "VarLSSFitter.add, calculate_subsampler_stats"), ("fit", "VarLSSFitter.fit"),
      ("file", "VarLSSFitter.write")],
     ["public statistics arrays"])

prop("C15", "Jackknife estimator: exact mean, variance, covariance in any history",
     "For any sequence of weighted measurements, more or fewer than the number of subsamples and summed over any number of processes, the estimator returns the weighted mean, the delete-one jackknife variance and (full or block) covariance of the subsample means, with the diagonal of the covariance equal to the variance, the covariance symmetric and positive semi-definite, and empty bins giving zero. Queries can be made in any order and repeated without changing the answer, adding after a query is refused until reset, and reset restores the initial state.",
     ["histories", "inputs"],
     "all measurement sequences, subsample counts, start offsets, data shapes, zero weights, block sizes and call orders",
     NUMBA + "They run one call order on one data set.",
     [Q + "mathtools.py"],
     [("estimator", "SubsampleCov"), ("covariance of squares", "mathtools.block_covariance_of_square")],
     ["returned mean/var/cov against exact rational-style recomputation"])

prop("C16", "Interpolators and math kernels reproduce their mathematical definition",
     "On any equally spaced table the linear interpolator returns the piecewise-linear interpolant and the cubic one the spline with the requested boundary condition, exact at nodes, extrapolating the end segment beyond the table, finite, and always reflecting the latest values set. The polynomial, smoothing and outlier kernels equal their definitions. Results depend only on the arguments: never on stale or uninitialised data.",
     ["inputs", "histories"],
     "all table sizes (from the smallest accepted), spacings, values, evaluation points inside, at and beyond the ends, and reset sequences",
     NUMBA + "They use one table size and in-range points.",
     [Q + "mathtools.py"],
     [("linear", "FastLinear1DInterp"), ("cubic", "FastCubic1DInterp"), ("polynomial", "mypoly1d"), ("outliers", "get_median_outlier_mask"), ("smoothing", "fft_gaussian_smooth")],
     ["returned values vs scipy/direct definitions"])

prop("C17", "Delta files hold exactly the valid spectra and round-trip exactly",
     "Saving spectra writes, for every valid spectrum and arm with non-zero S/N, exactly one extension in the file of its HEALPix (or of its process) and nothing for invalid ones, with wavelength, delta = f/C-1 (0 where masked), ivar*C^2, weight*C^2, continuum, resolution and header values such that flux, inverse variance and weight can be recovered. Reading the file back and writing it again preserves targets, arrays, resolution, blinded state and header, accepts logarithmic wavelengths and alternative identifier keys, and rejects files lacking the required columns or keys. Without an output directory nothing is written, and saving with neither grouping nor blinding set is refused.",
     ["inputs", "configurations"],
     "all lists of spectra (mixed validity, HEALPix, arms, exposures, resolution) and grouping options",
     NUMBA + "They write one spectrum.",
     [Q + "io.py", Q + "spectrum.py"],
     [("save", "io.save_deltas, Spectrum.write"), ("read", "io.read_deltas, Delta")],
     ["FITS files on disk"])

prop("C18", "End to end, each selected quasar is output once and correctly",
     "Running the fitting program on any input tree writes each quasar that passes the redshift, survey, S/N and length cuts exactly once to the chi2 catalogue and, if its fit is valid and long enough, exactly once per arm to the delta files, and no other quasar anywhere. In every delta extension (1+delta)*CONT and ivar/CONT^2 equal the masked, calibrated, optionally coadded input spectrum, CONT equals the model at the catalogued parameters and saved mean continuum, WEIGHT follows from the (fiducial or saved) variance functions, and the attributes file has one set of extensions per iteration plus the final ones consistent with the deltas. Outputs, apart from file grouping, rounding and the jackknife subsampling behind fitted variance functions, do not depend on the number of processes, and inputs are never modified.",
     ["inputs", "configurations", "schedules"],
     "all input trees, option combinations (arms, coadd mode, masks, calibration, fiducials, minimiser, order, iterations, cuts) and process counts",
     "No existing test that can run here executes the program; those that exist run one configuration on one process.",
     [Q + "scripts/qsonic_fit.py", Q + "picca_continuum.py", Q + "io.py"],
     [("program", "qsonic_fit.main"), ("iteration and saving", "PiccaContinuumFitter.iterate, save, save_contchi2_catalog")],
     ["files written by the program"])

prop("C19", "Unblinded deltas are never written for blinded data",
     "The blinding strategy depends only on the latest night of the whole selected catalogue over all processes: mocks, side bands (forest start above Lya) and data before 2021-05-14 are unblinded; later data are desi_m2 before 2021-08-01, desi_y1 before 2022-08-01 and desi_y3 from then on. Whenever the strategy is not 'none', every saved delta column is named as blinded and the strategy is in every header, identically in all files of a run, and this survives reading, coadding and rewriting. Saving before the strategy is set is refused.",
     ["inputs", "configurations", "schedules"],
     "all last-night distributions over rows, HEALPix and processes, forest limits, mock flag and downstream programs",
     NUMBA + "They call the strategy function for a few dates.",
     [Q + "spectrum.py", Q + "io.py", Q + "scripts/qsonic_fit.py", Q + "scripts/qsonic_coadd_deltas.py"],
     [("strategy", "Spectrum.set_blinding"), ("enforcement", "io.save_deltas, Spectrum.write, Delta.write")],
     ["column names and headers in written files"])

prop("C20", "Coadding deltas loses nothing and averages correctly",
     "Coadding directories of delta files writes every distinct TARGETID exactly once, in the file of its HEALPix for the requested nside and ordering, using every input extension exactly once, for any number of worker processes. Each coadded delta lies on one grid covering its inputs, with delta and continuum the weighted means, ivar = (sum w)^2/sum(w^2/ivar), a weight combining that ivar with the mean large-scale-structure variance of the contributing pixels only, resolution averaged, and updated S/N. Masked pixels contribute nothing, a single contributor is reproduced exactly, the order of inputs does not matter, and directories without any delta file are an error.",
     ["inputs", "configurations", "schedules"],
     "all sets of delta files, overlaps, masks, wavelength steps, nside/ordering and process counts",
     NUMBA + "They coadd two constant deltas and do not check the weight of partially masked pixels.",
     [Q + "scripts/qsonic_coadd_deltas.py", Q + "spectrum.py"],
     [("program", "qsonic_coadd_deltas.main, read_dirs_to_dict, write_one_hpx"), ("pairwise coadd", "Delta.coadd")],
     ["files written by the program"])

prop("C21", "The calibration program uses every kept delta exactly once",
     "The calibration program includes every delta of every input file exactly once, for any number of processes, except those removed: listed TARGETIDs, BAL quasars of the catalogue when requested, quasars of surveys not kept when surveys are given, and S/N not strictly between the limits. The saved variance statistics are those of the kept deltas, the saved stacked flux is their weighted mean of 1+delta per wavelength step (zero where none), and the saved var_lss and eta are the fit to those statistics. All processes finish alike also when some have no files or no kept deltas.",
     ["inputs", "configurations", "schedules"],
     "all delta directories, removal options (including one-line and empty lists), S/N limits, bin options and process counts",
     NUMBA + "There is no test of the program.",
     [Q + "scripts/qsonic_calib.py", Q + "picca_continuum.py"],
     [("reading and splitting files", "qsonic_calib.mpi_read_all_deltas"), ("removal list", "mpi_set_targetid_list_to_remove"), ("stack", "mpi_stack_fluxes")],
     ["file written by the program"])

prop("C22", "Exposure deltas carry their own data and the coadd's continuum",
     "With exposures read after continuum fitting, every saved exposure extension holds that exposure's own masked and calibrated flux, and a continuum that at every pixel equals the continuum fitted on the coadded spectrum of the same TARGETID at the same wavelength. Every exposure of every quasar with a valid coadd fit that passes the cuts is saved once per arm under its exposure identifier, in every survey present, and nothing else. With exposures read before fitting each exposure is fitted and saved as its own spectrum.",
     ["inputs", "configurations"],
     "all exposure counts, wavelength coverage and masks differing between exposure and coadd, surveys, arms and coadd modes",
     NUMBA + "There is no test of the mode.",
     [Q + "scripts/qsonic_fit.py", Q + "io.py"],
     [("exposures after", "qsonic_fit.mpi_read_exposures_after"), ("exposure reader", "io.read_onehealpix_file_data_uncoadd")],
     ["files written by the program"])

prop("C23", "Outputs are a deterministic function of inputs",
     "Repeating a run of any program or reader on the same inputs gives the same output values, whatever the process's hash seed, the contents of recycled memory, the order of directory listings, or spectra processed earlier in the same process. No output depends on uninitialised memory. When several accepted column, key or extension names are present in an input, the choice among them is fixed: the first in the documented order (a catalogue extension QSO_CAT, ZCATALOG, METADATA; LAMBDA before LOGLAM; DELTA_BLIND before DELTA; TARGETID, MOCKID, THING_ID; Z_DLA before Z).",
     ["schedules", "histories", "configurations"],
     "all hash seeds, memory contents, directory orders and preceding workloads",
     "A test run fixes the hash seed and sees fresh memory; each assertion is evaluated once.",
     [Q + "spectrum.py", Q + "masks.py", Q + "catalog.py", Q + "mathtools.py", Q + "scripts/qsonic_fit.py"],
     [("set-ordered choices", "DLAMask, Delta, catalog HDU, arms option"), ("buffers allocated without initialisation", "coadds, splines, readers")],
     ["digests of outputs across perturbed runs"])

prop("C24", "Compiled kernels are always called within their declared contract",
     "Every call into a compiled numerical kernel, made by any program or public function on valid input, passes arguments of the declared type, dimensionality and native byte order, and every array index formed inside a kernel lies inside its array. Compiled code performs no such checks, so a violation would be a crash, a silent wrong answer or memory corruption.",
     ["inputs", "configurations", "histories"],
     "all public workloads that reach a kernel, with all dtypes FITS files can produce",
     "The kernels cannot be compiled here and the tests that would exercise them are excluded; compiled code would not report an out-of-range index.",
     [Q + "mathtools.py", Q + "picca_continuum.py", Q + "io.py"],
     [("kernels", "functions decorated for just-in-time compilation in mathtools and picca_continuum")],
     ["arguments and indices of every kernel call"])

prop("C25", "Incompatible options are rejected up front and defaults honoured",
     "The fitting program rejects, before reading or writing anything, every combination of options documented as incompatible (true continuum without mocks or fiducials or together with an input continuum, reversed wavelength ranges, mocks or HEALPix saving or exposures in tile format, a skip ratio outside [0,1], unknown choices), and accepts every other combination. Accepted options reach the analysis with the given value, repeated arms count once, and the continuum model in force is the one requested by any of its aliases.",
     ["configurations"],
     "all combinations of command-line options",
     NUMBA + "No test enumerates option combinations.",
     [Q + "scripts/qsonic_fit.py", Q + "io.py", Q + "mpi_utils.py"],
     [("argument logic", "qsonic_fit.args_logic_fnc_qsonic_fit, get_parser"), ("distribution", "mpi_utils.mpi_parse")],
     ["parsed options on every rank and exit without output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
