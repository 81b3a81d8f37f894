"""Edits that change no behaviour: every check has to stay quiet on them.
Run with: python3 tools/trial.py tools/trials/refactors.py (MISSED is right)."""
ALL = ",".join(f"C{i:02d}" for i in range(1, 26))
SP, IO, MA, PC, MU = ("spectrum.py", "io.py", "masks.py",
                      "picca_continuum.py", "mpi_utils.py")
MT, CA, CL = "mathtools.py", "catalog.py", "calibration.py"
FIT, CAL, COA = ("scripts/qsonic_fit.py", "scripts/qsonic_calib.py",
                 "scripts/qsonic_coadd_deltas.py")
CM = "continuum_models/"

T = []

# ---------------------------------------------------------------- helpers
T.append(("r1-helpers", ALL, [
    (SP, "def valid_spectra(spectra_list):", '''def _inverse_or_zero(x):
    out = np.zeros_like(x)
    good = x > 0
    out[good] = 1 / x[good]
    return out


def _padded(reso_arm, ndia):
    extra = (ndia - reso_arm.shape[0]) // 2
    if extra <= 0:
        return reso_arm
    return np.pad(reso_arm, ((extra, extra), (0, 0)))


def _coadd_resolution(resos, weights, idxes, nwaves):
    ndia = max(reso.shape[0] for reso in resos.values())
    total, norm = np.zeros((ndia, nwaves)), np.zeros(nwaves)
    for arm, reso_arm in resos.items():
        wgt = np.where(weights[arm] == 0, 1e-8, weights[arm])
        total[:, idxes[arm]] += wgt * _padded(reso_arm, ndia)
        norm[idxes[arm]] += wgt
    good = norm > 0
    total[:, good] /= norm[good]
    return total


def valid_spectra(spectra_list):'''),
    (SP, '''            weight = self.ivar[arm]

            var = np.zeros_like(weight)
            w = self.ivar[arm] > 0
            var[w] = 1 / self.ivar[arm][w]
''', '''            weight = self.ivar[arm]
            var = _inverse_or_zero(self.ivar[arm])
'''),
    (SP, '''            max_ndia = np.max([reso.shape[0] for reso in self.reso.values()])
            coadd_reso = np.zeros((max_ndia, nwaves))
            coadd_norm *= 0

            for arm, reso_arm in self.reso.items():
                weight = self.ivar[arm].copy()
                weight[weight == 0] = 1e-8

                ddia = max_ndia - reso_arm.shape[0]
                # Assumption ddia cannot be odd
                ddia = ddia // 2
                if ddia > 0:
                    reso_arm = np.pad(reso_arm, ((ddia, ddia), (0, 0)))

                coadd_reso[:, idxes[arm]] += weight * reso_arm
                coadd_norm[idxes[arm]] += weight

            w = coadd_norm > 0
            coadd_reso[:, w] /= coadd_norm[w]
            self.reso = {'brz': coadd_reso}
''', '''            self.reso = {'brz': _coadd_resolution(
                self.reso, self.ivar, idxes, nwaves)}
'''),
    (SP, '''            weight = self.forestweight[arm]

            var = np.zeros_like(weight)
            w = self.forestivar[arm] > 0
            var[w] = 1 / self.forestivar[arm][w]
''', '''            weight = self.forestweight[arm]
            var = _inverse_or_zero(self.forestivar[arm])
'''),
    (SP, '''            max_ndia = np.max(
                [reso.shape[0] for reso in self.forestreso.values()])
            coadd_reso = np.zeros((max_ndia, nwaves))
            coadd_norm.fill(0)

            for arm, reso_arm in self.forestreso.items():
                weight = self.forestweight[arm].copy()
                weight[weight == 0] = 1e-8

                ddia = max_ndia - reso_arm.shape[0]
                # Assumption ddia cannot be odd
                ddia = ddia // 2
                if ddia > 0:
                    reso_arm = np.pad(reso_arm, ((ddia, ddia), (0, 0)))

                coadd_reso[:, idxes[arm]] += weight * reso_arm
                coadd_norm[idxes[arm]] += weight

            w = coadd_norm > 0
            coadd_reso[:, w] /= coadd_norm[w]
            self._forestreso = {'brz': coadd_reso}
''', '''            self._forestreso = {'brz': _coadd_resolution(
                self.forestreso, self.forestweight, idxes, nwaves)}
'''),
    (SP, '''        self.header = hdu.read_header()
        key = [_ for _ in Delta._accepted_targetid_keys
               if _ in self.header.keys()]
        if not key:
            raise RuntimeError(
                "One of these must be present in delta file header: "
                f"{', '.join(Delta._accepted_targetid_keys)} for TARGETID!")

        key = key[0]
        self.targetid = self.header[key]
''', '''        self.header = hdu.read_header()
        self.targetid = self._find_targetid()
'''),
    (SP, '''    def _coadd_reso(self, all_deltas, nwaves, idxes):''',
     '''    def _find_targetid(self):
        for key in Delta._accepted_targetid_keys:
            if key in self.header.keys():
                return self.header[key]
        raise RuntimeError(
            "One of these must be present in delta file header: "
            f"{', '.join(Delta._accepted_targetid_keys)} for TARGETID!")

    def _coadd_reso(self, all_deltas, nwaves, idxes):'''),
    (MA, "class SkyMask():", '''def _zero_ranges(spec, arm, ranges):
    """Sets pixels of all index ranges to zero."""
    w = np.zeros(spec.forestwave[arm].size, dtype=bool)
    for start, stop in ranges:
        w[start:stop] = True
    for field in (spec.forestivar, spec.forestflux):
        field[arm][w] = 0


class SkyMask():'''),
    (MA, '''            w = np.zeros(wave_arm.size, dtype=bool)

            m1 = np''', '''            m1 = np'''),
    (MA, '''            mask_idx_ranges = np.concatenate((m1, m2))
            for idx1, idx2 in mask_idx_ranges:
                w[idx1:idx2] = 1

            spec.forestflux[arm][w] = 0
            spec.forestivar[arm][w] = 0
''', '''            _zero_ranges(spec, arm, np.concatenate((m1, m2)))
'''),
    (MA, '''            w = np.zeros(wave_arm.size, dtype=bool)

            mask_idx''', '''            mask_idx'''),
    (MA, '''            mask_idx_ranges.sort(axis=1)
            for idx1, idx2 in mask_idx_ranges:
                w[idx1:idx2] = 1

            spec.forestflux[arm][w] = 0
            spec.forestivar[arm][w] = 0
''', '''            mask_idx_ranges.sort(axis=1)
            _zero_ranges(spec, arm, mask_idx_ranges)
'''),
    (IO, '''def read_onehealpix_file_data_coadd(
''', '''def _split_by(catalog, key):
    first = np.unique(catalog[key], return_index=True)[1]
    return np.split(catalog, first[1:])


def _healpix_fname(input_dir, base, survey, program, pixnum):
    return (f"{input_dir}/{survey}/{program}/{pixnum//100}/"
            f"{pixnum}/{base}-{survey}-{program}-{pixnum}.fits")


def read_onehealpix_file_data_coadd(
'''),
    (IO, '''        fspec = (f"{input_dir}/{survey}/{program}/{pixnum//100}/"
                 f"{pixnum}/spectra-{survey}-{program}-{pixnum}.fits")
''', '''        fspec = _healpix_fname(
            input_dir, "spectra", survey, program, pixnum)
'''),
    (IO, '''        fspec = (f"{input_dir}/{survey}/{program}/{pixnum//100}/"
                 f"{pixnum}/coadd-{survey}-{program}-{pixnum}.fits")
        data, idx''', '''        fspec = _healpix_fname(
            input_dir, "coadd", survey, program, pixnum)
        data, idx'''),
    (IO, '''    unique_surveys, s2 = np.unique(catalog_hpx['SURVEY'], return_index=True)
    survey_split_cat = np.split(catalog_hpx, s2[1:])
''', '''    survey_split_cat = _split_by(catalog_hpx, 'SURVEY')
'''),
    (IO, '''    petal_split_cat = np.split(
        catalog_tile, np.unique(
            catalog_tile['PETAL_LOC'], return_index=True)[1][1:]
    )
''', '''    petal_split_cat = _split_by(catalog_tile, 'PETAL_LOC')
'''),
    (PC, '''    def _smooth_fit_results(self, fit_results, std_results):
        w = fit_results > 0

        # Smooth new estimates
        if fit_results.ndim == 1:
            k = min(3, w.sum() - 1)
            spl = UnivariateSpline(
                self.waveobs[w], fit_results[w], w=1 / std_results[w], k=k)

            fit_results = spl(self.waveobs)
        # else ndim == 2
        else:
            w = w[:, 0]
            k = min(3, w.sum() - 1)
            spl1 = UnivariateSpline(
                self.waveobs[w], fit_results[w, 0], w=1 / std_results[w, 0],
                k=k)
            spl2 = UnivariateSpline(
                self.waveobs[w], fit_results[w, 1], w=1 / std_results[w, 1],
                k=k)

            fit_results[:, 0] = spl1(self.waveobs)
            fit_results[:, 1] = spl2(self.waveobs)

        return fit_results
''', '''    def _smooth_one(self, y, e, good):
        order = min(3, good.sum() - 1)
        spl = UnivariateSpline(
            self.waveobs[good], y[good], w=1 / e[good], k=order)
        return spl(self.waveobs)

    def _smooth_fit_results(self, fit_results, std_results):
        if fit_results.ndim == 1:
            return self._smooth_one(
                fit_results, std_results, fit_results > 0)

        good = fit_results[:, 0] > 0
        return np.column_stack([
            self._smooth_one(fit_results[:, j], std_results[:, j], good)
            for j in range(2)])
'''),
    (CL, '''class NoiseCalibrator():''', '''def _grid(data, fname, what):
    waves = data['lambda']
    step = waves[1] - waves[0]
    if not np.allclose(np.diff(waves), step):
        raise Exception(
            f"Failed to construct {what} calibration from "
            f"{fname}::wave is not equally spaced.")
    return waves[0], step


class NoiseCalibrator():'''),
    (CL, '''        waves = data['lambda']
        waves_0 = waves[0]
        dwave = waves[1] - waves[0]

        if not np.allclose(np.diff(waves), dwave):
            raise Exception(
                "Failed to construct noise calibration from "
                f"{fname}::wave is not equally spaced.")
''', '''        waves_0, dwave = _grid(data, fname, "noise")
'''),
    (CL, '''        waves = data['lambda']
        waves_0 = waves[0]
        dwave = waves[1] - waves[0]

        if not np.allclose(np.diff(waves), dwave):
            raise Exception(
                "Failed to construct flux calibration from "
                f"{fname}::wave is not equally spaced.")
''', '''        waves_0, dwave = _grid(data, fname, "flux")
'''),
    (FIT, '''def mpi_read_exposures_after(spectra_list''',
     '''def _overlap(wave, wave_coadd, dwave):
    """Index ranges of two grids where they overlap."""
    first = int(round((wave[0] - wave_coadd[0]) / dwave))
    last = int(round((wave_coadd[-1] - wave[-1]) / dwave))
    i1, i2 = max(0, -first), wave.size + min(0, last)
    j1, j2 = max(0, first), wave_coadd.size - max(0, last)
    return i1, i2, j1, j2


def mpi_read_exposures_after(spectra_list'''),
    (FIT, '''            i1, i2 = 0, wave_arm.size
            j1 = int(round((wave_arm[0] - wave_coadd[arm][0]) / spec.dwave))
            if j1 < 0:
                i1 = -j1
                j1 = 0

            j2 = int(round((wave_coadd[arm][-1] - wave_arm[-1]) / spec.dwave))
            if j2 < 0:
                i2 += j2
                j2 = 0
            j2 = wave_coadd[arm].size - j2
            spec''', '''            i1, i2, j1, j2 = _overlap(
                wave_arm, wave_coadd[arm], spec.dwave)
            spec'''),
]))

# ---------------------------------------------------------- loops rewritten
T.append(("r2-loops", ALL, [
    (MT, '''    results = np.zeros_like(x)
    for i, a in enumerate(coef):
        results += a * x**i
    return results
''', '''    results = np.zeros_like(x)
    for i in range(coef.size - 1, -1, -1):
        results = results * x + coef[i]
    return results
'''),
    (MT, '''        p = sig * y2p[ii - 1] + 2.
        y2p[ii] = (sig - 1) / p
        u[ii] = (fp[ii + 1] + fp[ii - 1] - 2 * fp[ii]) / dxp
        u[ii] = (3 * u[ii] / dxp - sig * u[ii - 1]) / p
''', '''        p = 1. / (sig * y2p[ii - 1] + 2.)
        y2p[ii] = (sig - 1) * p
        d2 = ((fp[ii + 1] - fp[ii]) - (fp[ii] - fp[ii - 1])) / dxp**2
        u[ii] = (3 * d2 - sig * u[ii - 1]) * p
'''),
    (MT, '''    for i in range(1, N - 1):
        y2p[i] = fp[i - 1] - 2 * fp[i] + fp[i + 1]
''', '''    y2p[1:-1] = (fp[2:] - fp[1:-1]) - (fp[1:-1] - fp[:-2])
'''),
    (MT, '''        self.mean = np.einsum(
            'ijk,ik->jk', self.all_measurements, self.all_weights[:, 0, :])
''', '''        self.mean = (self.all_measurements * self.all_weights).sum(axis=0)
'''),
    (MT, '''        self.variance = (np.einsum('ijk,ijk->jk', self.xdiff, self.xdiff)
                         * (self.nsamples - 1) / self.nsamples)
''', '''        self.variance = np.mean(self.xdiff**2, axis=0) * (self.nsamples - 1)
'''),
    (MT, '''        np.outer(v, v, out=new_cov[jj])
        new_cov[jj] += cov[jj]**2
        new_cov[jj] += 2 * cov[jj] * np.outer(m, m)

        C1 = np.outer(v, m**2)
        new_cov[jj] += C1 + C1.T
''', '''        for a in range(ndata):
            for b in range(ndata):
                c = cov[jj, a, b]
                new_cov[jj, a, b] = (
                    v[a] * v[b] + c * (c + 2 * m[a] * m[b])
                    + v[a] * m[b]**2 + v[b] * m[a]**2)
'''),
    (MT, '''    error[w1] = 1 / np.sqrt(ivar[w1])
''', '''    error[w1] = ivar[w1]**-0.5
'''),
    (MU, '''    number_of_spectra = np.zeros(mpi_size, dtype=int)
    local_queues = [[] for _ in range(mpi_size)]
    split_catalog.sort(key=lambda x: x.size, reverse=True)  # Descending order
    for cat in split_catalog:
        min_idx = np.argmin(number_of_spectra)
        number_of_spectra[min_idx] += cat.size
        local_queues[min_idx].append(cat)
''', '''    import heapq
    local_queues = [[] for _ in range(mpi_size)]
    loads = [(0, rank) for rank in range(mpi_size)]
    split_catalog.sort(key=lambda x: x.size, reverse=True)  # Descending order
    for cat in split_catalog:
        load, rank = heapq.heappop(loads)
        local_queues[rank].append(cat)
        heapq.heappush(loads, (load + cat.size, rank))
'''),
    (CAL, '''        stacked_flux[idx[w]] += flux[w] * delta.weight[w]
        weights[idx[w]] += delta.weight[w]
''', '''        np.add.at(stacked_flux, idx[w], flux[w] * delta.weight[w])
        np.add.at(weights, idx[w], delta.weight[w])
'''),
    (CAL, '''    buf = np.zeros(nwaveobs)
    comm.Allreduce(stacked_flux, buf)
    stacked_flux *= 0
    comm.Allreduce(weights, stacked_flux)
    weights = stacked_flux
    stacked_flux = buf
''', '''    total_flux, total_weights = np.zeros(nwaveobs), np.zeros(nwaveobs)
    comm.Allreduce(stacked_flux, total_flux)
    comm.Allreduce(weights, total_weights)
    stacked_flux, weights = total_flux, total_weights
'''),
    (IO, '''    for idata, iqso in enumerate(quasar_indices):
        data[idata, :, :] = imhdu[int(iqso), :, :]
''', '''    for idata in range(quasar_indices.size - 1, -1, -1):
        data[idata] = imhdu[int(quasar_indices[idata]), :, :][0]
'''),
    (IO, '''    for idata, iqso in enumerate(quasar_indices):
        data[idata, :] = imhdu[int(iqso), :]
''', '''    for row, iqso in zip(data, quasar_indices.tolist()):
        row[:] = imhdu[iqso, :]
'''),
    (IO, '''        pixnos = np.array([spec.hpix for spec in spectra_list])
        sort_idx = np.argsort(pixnos)
        pixnos = pixnos[sort_idx]
        unique_pix, s = np.unique(pixnos, return_index=True)
        split_spectra = np.split(np.array(spectra_list)[sort_idx], s[1:])
''', '''        by_pix = {}
        for spec in spectra_list:
            by_pix.setdefault(spec.hpix, []).append(spec)
        unique_pix = sorted(by_pix)
        split_spectra = [by_pix[pix] for pix in unique_pix]
'''),
    (PC, '''    for i in range(x.size):
        xvec[0, x[i]] += delta[i]
        xvec[1, x[i]] += y[i]
        xvec[2, x[i]] += y2[i]
        xvec[3, x[i]] += var[i]
''', '''    for i in range(x.size):
        j = x[i]
        xvec[0, j] += delta[i]
        xvec[1, j] += y[i]
        xvec[2, j] += y2[i]
        xvec[3, j] += var[i]
'''),
    (PC, '''        self.wvalid_bins = np.zeros(self.minlength, dtype=bool)
        for iwave in range(self.nwbins):
            i1 = (iwave + 1) * (self.nvarbins + 2) + 1
            i2 = i1 + self.nvarbins
            wbinslice = np.s_[i1:i2]
            self.wvalid_bins[wbinslice] = True
''', '''        valid = np.zeros((self.nwbins + 2, self.nvarbins + 2), dtype=bool)
        valid[1:-1, 1:-1] = True
        self.wvalid_bins = valid.ravel()
'''),
    (PC, '''            mean_snrs = np.zeros(3)
            _x = list(spec.mean_snr.values())
            mean_snrs[:len(_x)] = _x
''', '''            mean_snrs = list(spec.mean_snr.values())
            mean_snrs += [0.] * (3 - len(mean_snrs))
'''),
    (PC, '''        num_valid_fits = 0
        num_invalid_fits = 0

        # For each forest fit continuum
        for spec in spectra_list:
            self.model.fit_continuum(spec)

            if not spec.cont_params['valid']:
                num_invalid_fits += 1
            else:
                num_valid_fits += 1

        num_valid_fits = self.comm.allreduce(num_valid_fits)
        num_invalid_fits = self.comm.allreduce(num_invalid_fits)
''', '''        for spec in spectra_list:
            self.model.fit_continuum(spec)

        num_valid_fits = sum(1 for _ in valid_spectra(spectra_list))
        num_all_fits = self.comm.allreduce(len(spectra_list))
        num_valid_fits = self.comm.allreduce(num_valid_fits)
        num_invalid_fits = num_all_fits - num_valid_fits
'''),
    (MA, '''        w = np.nonzero(self.unique_targetids == spec.targetid)[0]
        if w.size == 0:
            return

        idx = w[0]
''', '''        idx = np.searchsorted(self.unique_targetids, spec.targetid)
        if (idx == self.unique_targetids.size
                or self.unique_targetids[idx] != spec.targetid):
            return

'''),
    (MA, '''            transmission[np.searchsorted(
                wave_arm, (1 + spec.z_qso) * DLAMask.wave_lya_A):
            ] = 1
''', '''            red = wave_arm >= (1 + spec.z_qso) * DLAMask.wave_lya_A
            transmission[red] = 1
'''),
    (COA, '''    deltas_by_target = defaultdict(list)
    for onelist in deltas:
        for delta in onelist:
            deltas_by_target[delta.targetid].append(delta)
''', '''    deltas_by_target = {}
    for delta in (d for onelist in deltas for d in onelist):
        deltas_by_target.setdefault(delta.targetid, []).append(delta)
'''),
    (SP, '''        size = 0
        for ivar_arm in self.forestivar.values():
            size += np.sum(ivar_arm > 0)

        return size
''', '''        return sum(
            np.count_nonzero(ivar > 0) for ivar in self.forestivar.values())
'''),
]))

# --------------------------------------------- statements reordered, renamed
T.append(("r3-order", ALL, [
    (CA, '''    if is_tile:
        sort_order = ['TILEID', 'PETAL_LOC', 'TARGETID']
    else:
        sort_order = ["HPXPIXEL", 'TARGETID']

    # Filter all the objects in the catalogue not belonging to the specified
    # surveys.
    if 'SURVEY' in colnames and keep_surveys is not None:
        w = np.isin(catalog["SURVEY"], keep_surveys)
        catalog = catalog[w]
        logging.info(
            f"There are {w.sum()} quasars in given surveys {keep_surveys}.")

    # Readers split by SURVEY, so it must be sorted if all surveys are kept too
    if (
            'SURVEY' in colnames and not is_tile
            and (keep_surveys is None or len(keep_surveys) > 1)
    ):
        sort_order.insert(1, 'SURVEY')

    if catalog.size == 0:
        raise Exception("Empty quasar catalogue.")

    catalog = _add_healpix(catalog, n_side, colnames)
    catalog.sort(order=sort_order)
''', '''    has_survey = 'SURVEY' in colnames
    if has_survey and keep_surveys is not None:
        w = np.isin(catalog["SURVEY"], keep_surveys)
        catalog = catalog[w]
        logging.info(
            f"There are {w.sum()} quasars in given surveys {keep_surveys}.")

    if catalog.size == 0:
        raise Exception("Empty quasar catalogue.")

    catalog = _add_healpix(catalog, n_side, colnames)

    if is_tile:
        sort_order = ['TILEID', 'PETAL_LOC', 'TARGETID']
    elif has_survey:
        sort_order = ['HPXPIXEL', 'SURVEY', 'TARGETID']
    else:
        sort_order = ['HPXPIXEL', 'TARGETID']
    catalog = catalog[np.argsort(catalog, order=sort_order)]
'''),
    (MU, '''    result = _INVALID_VALUE
    if (mpi_rank == 0 or comm is None):
        try:
            result = fnc(*args, **kwargs)
        except Exception as e:
            logging.exception(e)
            # Callables such as functools.partial do not have a __name__
            logging.error(f"Error in {getattr(fnc, '__qualname__', fnc)}.")
            result = _INVALID_VALUE

    if comm is not None:
        result = comm.bcast(result)

    if result is _INVALID_VALUE:
        raise QsonicException(err_msg)

    return result
''', '''    status, result = False, None
    if comm is None or mpi_rank == 0:
        try:
            result = fnc(*args, **kwargs)
            status = True
        except Exception as e:
            logging.exception(e)

    if comm is not None:
        status, result = comm.bcast((status, result))

    if not status:
        raise QsonicException(err_msg)

    return result
'''),
    (SP, '''        self._f1, self._f2 = {}, {}
        self._forestwave, self._forestflux = {}, {}
        self._forestivar, self._forestreso = {}, {}

        for arm, wave_arm in self.wave.items():
            # Slice to forest limits
            ii1, ii2 = np.searchsorted(wave_arm, [l1, l2])
            real_size_arm = np.sum(self.ivar[arm][ii1:ii2] > 0)
            if real_size_arm == 0:
                continue

            self._f1[arm], self._f2[arm] = ii1, ii2

            # See https://numpy.org/doc/stable/user/basics.copies.html
            # Slicing creates views, not copies. Bases of views are not removed
            # from memory!
            self._forestwave[arm] = wave_arm[ii1:ii2].copy()
            self._forestflux[arm] = self.flux[arm][ii1:ii2].copy()
            self._forestivar[arm] = self.ivar[arm][ii1:ii2].copy()
            if self.reso:
                self._forestreso[arm] = self.reso[arm][:, ii1:ii2].copy()
''', '''        limits = {}
        for arm, wave_arm in self.wave.items():
            ii1 = int(np.searchsorted(wave_arm, l1))
            ii2 = int(np.searchsorted(wave_arm, l2))
            if (self.ivar[arm][ii1:ii2] > 0).any():
                limits[arm] = (ii1, ii2)

        self._f1 = {arm: lim[0] for arm, lim in limits.items()}
        self._f2 = {arm: lim[1] for arm, lim in limits.items()}
        # Copies, so that the full arrays can be freed
        self._forestivar = {
            arm: np.array(self.ivar[arm][i1:i2])
            for arm, (i1, i2) in limits.items()}
        self._forestflux = {
            arm: np.array(self.flux[arm][i1:i2])
            for arm, (i1, i2) in limits.items()}
        self._forestwave = {
            arm: np.array(self.wave[arm][i1:i2])
            for arm, (i1, i2) in limits.items()}
        self._forestreso = {
            arm: np.array(self.reso[arm][:, i1:i2])
            for arm, (i1, i2) in limits.items()} if self.reso else {}
'''),
    (SP, '''        for arm, wave_arm in self.forestwave.items():
            if self.mean_snr[arm] == 0:
                continue

            hdr_dict['MEANSNR'] = self.mean_snr[arm]

            cont_est = self.cont_params['cont'][arm]
            delta = self.forestflux[arm] / cont_est - 1
            ivar = self.forestivar[arm] * cont_est**2
            weight = self.forestweight[arm] * cont_est**2
            delta[ivar == 0] = 0
''', '''        for arm, wave_arm in self.forestwave.items():
            mean_snr = self.mean_snr[arm]
            if mean_snr == 0:
                continue

            cont_est = self.cont_params['cont'][arm]
            cont2 = cont_est * cont_est
            weight = self.forestweight[arm] * cont2
            ivar = self.forestivar[arm] * cont2
            delta = np.where(
                ivar == 0, 0., (self.forestflux[arm] - cont_est) / cont_est)
            hdr_dict['MEANSNR'] = mean_snr
'''),
    (SP, '''        if args.mock_analysis or args.forest_w1 > Spectrum.WAVE_LYA_A:
            Spectrum._blinding = "none"
        # sv data, no blinding
        elif maxlastnight < 20210514:
            Spectrum._blinding = "none"
        elif maxlastnight < 20210801:
            Spectrum._blinding = "desi_m2"
        elif maxlastnight < 20220801:
            Spectrum._blinding = "desi_y1"
        else:
            Spectrum._blinding = "desi_y3"

        if Spectrum._blinding != "none":
            Spectrum._fits_colnames[1] = 'DELTA_BLIND'
        else:
            Spectrum._fits_colnames[1] = 'DELTA'
''', '''        strategy = "desi_y3"
        if args.mock_analysis or args.forest_w1 > Spectrum.WAVE_LYA_A:
            strategy = "none"
        else:
            for night, name in (
                    (20210514, "none"), (20210801, "desi_m2"),
                    (20220801, "desi_y1")):
                if maxlastnight < night:
                    strategy = name
                    break

        Spectrum._blinding = strategy
        Spectrum._fits_colnames[1] = (
            'DELTA' if strategy == "none" else 'DELTA_BLIND')
'''),
    (SP, '''            chi2 += np.dot(weight, (flux - cont_est)**2)
''', '''            chi2 += np.sum(weight * (cont_est - flux)**2)
'''),
    (FIT, '''    spectra_list = []
    # Each process reads its own list
    for cat in local_queue:
        local_specs = readerFunction(cat)

        for spec in local_specs:
            spec.set_forest_region(
                args.wave1, args.wave2, args.forest_w1, args.forest_w2)
            spec.remove_nonforest_pixels()

        spectra_list.extend([
            spec for spec in local_specs
            if spec.forestwave and spec.rsnr >= args.min_rsnr
        ])
''', '''    spectra_list = []
    for cat in local_queue:
        for spec in readerFunction(cat):
            if spec.rsnr < args.min_rsnr:
                continue
            spec.set_forest_region(
                args.wave1, args.wave2, args.forest_w1, args.forest_w2)
            spec.remove_nonforest_pixels()
            if spec.forestwave:
                spectra_list.append(spec)
'''),
    (FIT, '''    # remove from sample if the number of pixels is small
    spectra_list = remove_short_spectra(
        spectra_list, args.forest_w1, args.forest_w2, args.skip)

    # Remove spectra with respect to forest snr
    spectra_list = [spec for spec in spectra_list
                    if spec.get_effective_meansnr() >= args.min_forestsnr]

    return spectra_list
''', '''    # Remove spectra with respect to forest snr
    spectra_list = [spec for spec in spectra_list
                    if spec.get_effective_meansnr() >= args.min_forestsnr]

    # remove from sample if the number of pixels is small
    return remove_short_spectra(
        spectra_list, args.forest_w1, args.forest_w2, args.skip)
'''),
    (CM + "base_continuum_model.py", '''                cont = spec.cont_params['cont'][arm]
                weight = spec.forestweight[arm] * cont**2
                weighted_flux = weight * spec.forestflux[arm] / cont
                weighted_cont = weight * cont
''', '''                cont = spec.cont_params['cont'][arm]
                wcont = spec.forestweight[arm] * cont
                weight = wcont * cont
                weighted_cont = weight * cont
                weighted_flux = wcont * spec.forestflux[arm]
'''),
    (PC, '''        w = self._interp.ep > 0
        self._interp.fp[w] /= self._interp.ep[w]
        self._interp.fp[~w] = 0

        w = self._interp_rf.ep > 0
        self._interp_rf.fp[w] /= self._interp_rf.ep[w]
        self._interp_rf.fp[~w] = 0

        self._interp_rf.ep[w] = 1 / np.sqrt(self._interp_rf.ep[w])
''', '''        for interp in (self._interp_rf, self._interp):
            good = interp.ep > 0
            interp.fp[:] = np.divide(
                interp.fp, interp.ep, out=np.zeros_like(interp.fp),
                where=good)

        good = self._interp_rf.ep > 0
        self._interp_rf.ep[good] **= -0.5
'''),
    (PC, '''        ivar_indx = np.searchsorted(self.ivar_edges, ivar)
        all_indx = ivar_indx + wave_indx * (self.nvarbins + 2)
        var = np.zeros_like(ivar)
        w = ivar > 0
        var[w] = 1. / ivar[w]

        npix = np.bincount(all_indx, minlength=self.minlength)
        self._num_pixels += npix
        xvec = _fast_weighted_vector_bincount(
            all_indx, delta, var, self.minlength)
        self.subsampler.add_measurement(xvec, npix)

        npix[npix > 0] = 1
        self._num_qso += npix
''', '''        var = np.divide(1., ivar, out=np.zeros_like(ivar), where=ivar > 0)
        ivar_indx = np.searchsorted(self.ivar_edges, ivar)
        all_indx = wave_indx * (self.nvarbins + 2) + ivar_indx

        xvec = _fast_weighted_vector_bincount(
            all_indx, delta, var, self.minlength)
        npix = np.bincount(all_indx, minlength=self.minlength)
        self._num_qso += (npix > 0).astype(int)
        self._num_pixels += npix
        self.subsampler.add_measurement(xvec, npix)
'''),
    (PC, '''        m2 = self.subsampler.mean[0]**2
        self.subsampler.mean[1] -= m2
        self.subsampler.mean[2] -= self.subsampler.mean[1]**2

        w = self._num_pixels > 0
        self.subsampler.mean[2, w] /= self._num_pixels[w]
''', '''        mean = self.subsampler.mean
        m2 = mean[0]**2
        mean[1] = mean[1] - m2
        mean[2] = (mean[2] - mean[1]**2) / np.maximum(self._num_pixels, 1)
'''),
    (PC, '''            self.subsampler.variance[1] = np.where(
                self.subsampler.variance[1] > self.subsampler.mean[2],
                self.subsampler.variance[1],
                self.subsampler.mean[2]
            )
''', '''            self.subsampler.variance[1] = np.maximum(
                self.subsampler.variance[1], self.subsampler.mean[2])
'''),
    (CL, '''                stacked_flux = self.stacked_flux_interp(wave_arm)
                spec.forestflux[arm] /= stacked_flux
                spec.forestivar[arm] *= stacked_flux**2
''', '''                s = self.stacked_flux_interp(wave_arm)
                spec.forestivar[arm] *= s * s
                spec.forestflux[arm] /= s
'''),
]))
