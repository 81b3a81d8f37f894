From 03d2853b4cfc932a55a712759e0e7f837bdfe067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:32 +0000
Subject: [PATCH 01/39] fix: sort catalog by SURVEY when all surveys are kept

---
 py/qsonic/catalog.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index cec749a..8f3d4fa 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -379,11 +379,16 @@ def _prime_catalog(
     if 'SURVEY' in colnames and keep_surveys is not None:
         w = np.isin(catalog["SURVEY"], keep_surveys)
         catalog = catalog[w]
-        if len(keep_surveys) > 1 and not is_tile:
-            sort_order.insert(1, 'SURVEY')
         logging.info(
             f"There are {w.sum()} quasars in given surveys {keep_surveys}.")
 
+    # Readers split by SURVEY, so it must be sorted if all surveys are kept too
+    if (
+            'SURVEY' in colnames and not is_tile
+            and (keep_surveys is None or len(keep_surveys) > 1)
+    ):
+        sort_order.insert(1, 'SURVEY')
+
     if catalog.size == 0:
         raise Exception("Empty quasar catalogue.")
 
-- 
2.43.0


From e5254c5c581b719db1e0f007e5c8b891317e5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:58 +0000
Subject: [PATCH 02/39] fix: mpi_get_local_queue without MPI (comm=None is the
 default)

---
 py/qsonic/catalog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index 8f3d4fa..a707a33 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -178,7 +178,8 @@ def mpi_get_local_queue(
     else:
         status = False
 
-    status = comm.bcast(status)
+    if comm is not None:
+        status = comm.bcast(status)
     if not status:
         raise QsonicException("Error while reading catalog.")
 
@@ -197,6 +198,9 @@ def mpi_get_local_queue(
     else:
         local_queue = None
 
+    if comm is None:
+        return local_queue[0]
+
     return comm.scatter(local_queue)
 
 
-- 
2.43.0


From 967ec904cbbe2e60102f6e714cf7176c6e29bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:33 +0000
Subject: [PATCH 03/39] fix: mpi_fnc_bcast hangs other ranks if a nameless
 callable fails

---
 py/qsonic/mpi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/mpi_utils.py b/py/qsonic/mpi_utils.py
index eb0a3c9..43dc23f 100644
--- a/py/qsonic/mpi_utils.py
+++ b/py/qsonic/mpi_utils.py
@@ -95,7 +95,8 @@ def mpi_fnc_bcast(fnc, comm=None, mpi_rank=0, err_msg="", *args, **kwargs):
             result = fnc(*args, **kwargs)
         except Exception as e:
             logging.exception(e)
-            logging.error(f"Error in {fnc.__module__}.{fnc.__name__}.")
+            # Callables such as functools.partial do not have a __name__
+            logging.error(f"Error in {getattr(fnc, '__qualname__', fnc)}.")
             result = _INVALID_VALUE
 
     if comm is not None:
-- 
2.43.0


From b6d0cd4df7f2f20367c3a973dd429fc9cb757545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:55 +0000
Subject: [PATCH 04/39] fix: match catalog rows to spectra when the catalog is
 not in TARGETID order

---
 py/qsonic/io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 46e5a6f..8c8cff4 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -538,8 +538,8 @@ def read_onehealpix_file_data_coadd(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        # Spectra are read in TARGETID order
+        cat_by_survey = cat_by_survey[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -588,8 +588,8 @@ def read_onehealpix_file_data_uncoadd(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat,
             ['TARGETID', 'PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID'])
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        # Spectra are read in TARGETID order
+        cat_by_survey = cat_by_survey[idx_cat]
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
@@ -647,8 +647,8 @@ def read_onetile_coaddfile_data(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_petal['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_petal.size:
-            cat_by_petal = cat_by_petal[idx_cat]
+        # Spectra are read in TARGETID order
+        cat_by_petal = cat_by_petal[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -693,8 +693,8 @@ def read_onehealpix_file_mock(
     data, idx_cat, _ = _read_onehealpix_file(
         catalog_hpx['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-    if idx_cat.size != catalog_hpx.size:
-        catalog_hpx = catalog_hpx[idx_cat]
+    # Spectra are read in TARGETID order
+    catalog_hpx = catalog_hpx[idx_cat]
 
     fspec = f"{input_dir}/{pixnum//100}/{pixnum}/truth-{nside}-{pixnum}.fits"
     if read_true_continuum:
-- 
2.43.0


From 408f255e8f17602950ff009696a09de99578838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:43 +0000
Subject: [PATCH 05/39] fix: reading exposures if the catalog has fibermap
 columns

---
 py/qsonic/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 8c8cff4..8fb6584 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -593,10 +593,11 @@ def read_onehealpix_file_data_uncoadd(
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
+        fbrmap = drop_fields(fbrmap, 'TARGETID', usemask=False)
+        # Catalog can also have these columns, but they belong to the exposure
+        new_cat = drop_fields(new_cat, fbrmap.dtype.names, usemask=False)
         new_cat = merge_arrays(
-            (new_cat, drop_fields(fbrmap, 'TARGETID', usemask=False)),
-            flatten=True, usemask=False
-        )
+            (new_cat, fbrmap), flatten=True, usemask=False)
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(new_cat, data)
-- 
2.43.0


From 3bfe87e99094dd8c5958e0c43e800b9b8738157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:07 +0000
Subject: [PATCH 06/39] fix: slice forest ivar once when weights point to it

forestivar, forestivar_sm and forestweight are the same dictionary until
smoothing and weights are set, so slice() cut the same array three times.
---
 py/qsonic/spectrum.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c2d65ba..3e070fb 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -290,9 +290,11 @@ class Spectrum():
 
         self._forestwave[arm] = self._forestwave[arm][i1:i2]
         self._forestflux[arm] = self._forestflux[arm][i1:i2]
-        self._forestivar[arm] = self._forestivar[arm][i1:i2]
-        self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
-        self._forestweight[arm] = self._forestweight[arm][i1:i2]
+        # These can point to the same dictionary. Slice each one only once.
+        ivar_like = [
+            self._forestivar, self._forestivar_sm, self._forestweight]
+        for field in {id(x): x for x in ivar_like}.values():
+            field[arm] = field[arm][i1:i2]
 
         if arm in self._forestreso:
             self._forestreso[arm] = self._forestreso[arm][:, i1:i2]
-- 
2.43.0


From 81b5167b5754dd95ce32f8d8811a59cd00a2c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:07 +0000
Subject: [PATCH 07/39] fix: set_forest_region keeps arms of the previous
 region

Arms without usable pixels in the new region kept the pixels (and the
S/N) of the previous call.
---
 py/qsonic/spectrum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 3e070fb..5b00a08 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -320,6 +320,10 @@ class Spectrum():
         l1 = max(w1, (1 + self.z_qso) * lya1)
         l2 = min(w2, (1 + self.z_qso) * lya2)
 
+        self._f1, self._f2 = {}, {}
+        self._forestwave, self._forestflux = {}, {}
+        self._forestivar, self._forestreso = {}, {}
+
         for arm, wave_arm in self.wave.items():
             # Slice to forest limits
             ii1, ii2 = np.searchsorted(wave_arm, [l1, l2])
-- 
2.43.0


From d3d7119618a5ae2d6ac5267d90cf50ed075e9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:50 +0000
Subject: [PATCH 08/39] fix: infinite DLA transmission close to the line center

The Tepper-Garcia correction is a difference of O(1/P) terms divided by P.
With P of the order of 1e-12 rounding errors gave optical depths down to
-1e8, hence infinite transmission, if a pixel is within ~1e-9 (relative)
of the line center.
---
 py/qsonic/masks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index f6faa2c..814dc10 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -258,7 +258,8 @@ class DLAMask():
         -------
         :external+numpy:py:class:`ndarray <numpy.ndarray>`
         """
-        P = u**2 + 1e-12
+        # The floor keeps cancellation errors at the line center small
+        P = u**2 + 1e-6
         Q = 1.5 / P
         R = np.exp(-P)
         corr = (R**2 * (4 * P**2 + 7 * P + 4 + Q) - Q - 1)
-- 
2.43.0


From 03042a97ef7c188b7dd57925a1bb9842e146e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:09 +0000
Subject: [PATCH 09/39] fix: uninitialised continuum in the gap between coadded
 arms

---
 py/qsonic/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 5b00a08..ecbb7f7 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -644,7 +644,8 @@ class Spectrum():
         self._forestivar = {'brz': coadd_ivar}
 
         if self.cont_params['cont']:
-            coadd_cont = np.empty(nwaves)
+            # Pixels between arms do not have a continuum, nor ivar
+            coadd_cont = np.ones(nwaves)
 
             for arm, idx in idxes.items():
                 # continuum needs not weighting
-- 
2.43.0


From 46e816fd8e545e658515dca0df60e3e8db94c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:09 +0000
Subject: [PATCH 10/39] fix: NaN resolution in the gaps of coadded spectra and
 deltas

---
 py/qsonic/spectrum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index ecbb7f7..6b5873a 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -585,7 +585,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self.reso = {'brz': coadd_reso}
 
         self._current_wave = Spectrum._coadd_wave
@@ -672,7 +673,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self._forestreso = {'brz': coadd_reso}
 
         self.set_smooth_forestivar(self._smoothing_scale)
@@ -998,7 +1000,8 @@ class Delta():
             coadd_reso[:, idxes[j]] += weight * obj.reso
             coadd_norm[idxes[j]] += weight
 
-        coadd_reso /= coadd_norm
+        w = coadd_norm > 0
+        coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
     def coadd(self, other, dwave=0.8):
-- 
2.43.0


From 03b77029c03fedc48a5f3aa76d50f92a4a623bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:09 +0000
Subject: [PATCH 11/39] fix: NaN mean SNR of a coadd without any valid pixel

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 6b5873a..c0cafc5 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -681,7 +681,7 @@ class Spectrum():
         self.set_forest_weight(varlss_interp, eta_interp)
 
         mean_snr = np.dot(
-            np.sqrt(coadd_ivar), coadd_flux) / np.sum(coadd_ivar > 0)
+            np.sqrt(coadd_ivar), coadd_flux) / max(1, np.sum(coadd_ivar > 0))
         self.mean_snr = {'brz': mean_snr}
 
     def mean_resolution(self, arm, weight=None):
-- 
2.43.0


From 1dcce180937f35b5f8ff38253fb9f7342315f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:12 +0000
Subject: [PATCH 12/39] fix: SubsampleCov queries after get_mean or with a
 different bias_correct

---
 py/qsonic/mathtools.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 53b7ec3..a9b7815 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -642,9 +642,8 @@ class SubsampleCov():
         cov: list(:class:`ndarray <numpy.ndarray>`)
             Covariances of the mean.
         """
-        if self.mean is None:
-            mean_xvec = self.get_mean()
-            self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
+        mean_xvec = self.get_mean()
+        self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
         if indices is None:
             indices = range(self.all_measurements.shape[1])
@@ -685,9 +684,8 @@ class SubsampleCov():
         var_xvec: :class:`ndarray <numpy.ndarray>`
             Variance of the mean. 1D array
         """
-        if self.mean is None:
-            mean_xvec = self.get_mean()
-            self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
+        mean_xvec = self.get_mean()
+        self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
         self.variance = (np.einsum('ijk,ijk->jk', self.xdiff, self.xdiff)
                          * (self.nsamples - 1) / self.nsamples)
-- 
2.43.0


From 671b37be0070904edf67570d0bcd86f9d38fdfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:10 +0000
Subject: [PATCH 13/39] fix: not-a-knot spline uses uninitialised memory with
 less than four points

---
 py/qsonic/mathtools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index a9b7815..5515446 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -104,6 +104,13 @@ def _spline_cubic_notaknot(fp, dxp):
         Second derivative array. Same size as ``fp``.
     """
     N = fp.size
+    if N < 4:
+        # Parabola (or line) that goes through all points
+        y2p = np.zeros(N)
+        if N == 3:
+            y2p += (fp[0] - 2 * fp[1] + fp[2]) / dxp**2
+        return y2p
+
     y2p = np.empty(N)
     # Solve the submatrix 1:-1 using precalculated u and p values
     u = np.array([
-- 
2.43.0


From 863d624d988e72ce83c42d182937f46cd63cd96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:31 +0000
Subject: [PATCH 14/39] fix: input continuum on a process without spectra

---
 py/qsonic/continuum_models/input_continuum_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/continuum_models/input_continuum_model.py b/py/qsonic/continuum_models/input_continuum_model.py
index 7d0a2ca..2af5cd6 100644
--- a/py/qsonic/continuum_models/input_continuum_model.py
+++ b/py/qsonic/continuum_models/input_continuum_model.py
@@ -143,6 +143,9 @@ class InputContinuumModel(BaseContinuumModel):
         spectra_list: list(Spectrum)
             Spectrum objects.
         """
+        if not spectra_list:
+            return
+
         local_catalog = np.hstack([_.catrow for _ in spectra_list]).copy()
         local_catalog['HPXPIXEL'] = ang2pix(
             self.nside, local_catalog['RA'], local_catalog['DEC'],
-- 
2.43.0


From 4e387db34a10c282ca87d3cf327acab7905ec81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:10 +0000
Subject: [PATCH 15/39] fix: delta columns after a second set_blinding and
 without resolution

---
 py/qsonic/spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c0cafc5..28d2e05 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -162,9 +162,8 @@ class Spectrum():
 
         if Spectrum._blinding != "none":
             Spectrum._fits_colnames[1] = 'DELTA_BLIND'
-
-        if not args.skip_resomat:
-            Spectrum._fits_colnames.append('RESOMAT')
+        else:
+            Spectrum._fits_colnames[1] = 'DELTA'
 
     @staticmethod
     def blinding_not_set():
@@ -772,12 +771,14 @@ class Spectrum():
             delta[ivar == 0] = 0
 
             cols = [wave_arm, delta, ivar, weight, cont_est]
+            names = Spectrum._fits_colnames.copy()
             if self.forestreso:
                 hdr_dict['MEANRESO'] = self.mean_resolution(arm)
                 cols.append(self.forestreso[arm].T.astype('f8'))
+                names.append('RESOMAT')
 
             fts_file.write(
-                cols, names=Spectrum._fits_colnames, header=hdr_dict,
+                cols, names=names, header=hdr_dict,
                 extname=f"{self.targetid}-{arm}{expid}")
 
     @property
-- 
2.43.0


From a157c294480bc16d8fb0a60b5681838f144c3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:10 +0000
Subject: [PATCH 16/39] fix: unreadable delta file if there are no spectra to
 save

---
 py/qsonic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 8fb6584..5e848ad 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -268,6 +268,8 @@ def save_deltas(
     for healpix, hp_specs in zip(unique_pix, split_spectra):
         results = fitsio.FITS(
             f"{outdir}/delta-{healpix}.fits", 'rw', clobber=True)
+        # Keep the file readable if there are no spectra to write
+        results.write(None)
 
         for spec in qsonic.spectrum.valid_spectra(hp_specs):
             spec.write(results)
-- 
2.43.0


From 8d72ba498f10095cc70fcb2f40eebc93a6d82c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 17/39] fix: masked pixels add to var_lss of coadded deltas

---
 py/qsonic/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 28d2e05..1a48a92 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1027,10 +1027,14 @@ class Delta():
             w = (obj.weight > 0) & (obj.ivar > 0)
             var[w] = 1 / obj.ivar[w]
 
+            # weight * var_lss. Masked pixels do not contribute
+            lss = np.zeros_like(obj.weight)
+            lss[w] = 1 - obj.weight[w] * var[w]
+
             coadd_delta[idx] += obj.weight * obj.delta
             coadd_cont[idx] += obj.weight * obj.cont
             coadd_ivar[idx] += obj.weight**2 * var
-            coadd_lss[idx] += 1 - obj.weight * var
+            coadd_lss[idx] += lss
             coadd_norm[idx] += obj.weight
 
         w = coadd_norm > 0
-- 
2.43.0


From e4d089e90ac677f3a80d3a43aa12ceec0da4c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 18/39] fix: NaN mean SNR of coadded deltas without any valid
 pixel

---
 py/qsonic/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 1a48a92..5c3f09e 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1053,7 +1053,8 @@ class Delta():
         self.cont = coadd_cont
 
         self.mean_snr = np.dot(
-            np.sqrt(coadd_ivar), coadd_delta + 1) / np.sum(coadd_ivar > 0)
+            np.sqrt(coadd_ivar), coadd_delta + 1
+        ) / max(1, np.sum(coadd_ivar > 0))
         self.header['MEANSNR'] = self.mean_snr
 
     @property
-- 
2.43.0


From 9a12cf06a72918f49dd68efe7b4ee2f38f1f7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 19/39] fix: coadd deltas on the wavelength step of their
 header

---
 py/qsonic/spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 5c3f09e..98d1b88 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1005,7 +1005,10 @@ class Delta():
         coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
-    def coadd(self, other, dwave=0.8):
+    def coadd(self, other, dwave=None):
+        if dwave is None:
+            dwave = self.header.get('DELTA_LAMBDA', 0.8)
+
         min_wave = min(self.wave[0], other.wave[0])
         max_wave = max(self.wave[-1], other.wave[-1])
 
-- 
2.43.0


From 27506ca8643619383be87c4664a8bfc386e6a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:05 +0000
Subject: [PATCH 20/39] fix: coadd of three or more deltas depends on their
 order

---
 py/qsonic/scripts/qsonic_coadd_deltas.py | 13 ++++++----
 py/qsonic/spectrum.py                    | 32 +++++++++++++++++-------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_coadd_deltas.py b/py/qsonic/scripts/qsonic_coadd_deltas.py
index cc4980d..5ef640c 100644
--- a/py/qsonic/scripts/qsonic_coadd_deltas.py
+++ b/py/qsonic/scripts/qsonic_coadd_deltas.py
@@ -68,13 +68,16 @@ def read_dirs_to_dict(directories, nproc):
         deltas = pool.map(qsonic.io.read_deltas, fnames)
 
     logging.info("Coadding deltas.")
-    forest_dict = {}
+    deltas_by_target = defaultdict(list)
     for onelist in deltas:
         for delta in onelist:
-            if delta.targetid in forest_dict:
-                forest_dict[delta.targetid].coadd(delta)
-            else:
-                forest_dict[delta.targetid] = delta
+            deltas_by_target[delta.targetid].append(delta)
+
+    forest_dict = {}
+    for targetid, (delta, *others) in deltas_by_target.items():
+        if others:
+            delta.coadd(others)
+        forest_dict[targetid] = delta
 
     return forest_dict
 
diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 98d1b88..f2b0e51 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -983,12 +983,12 @@ class Delta():
             cols, names=names, header=hdr_dict,
             extname=f"{self.targetid}")
 
-    def _coadd_reso(self, other, nwaves, idxes):
-        max_ndia = max(self.reso.shape[0], other.reso.shape[0])
+    def _coadd_reso(self, all_deltas, nwaves, idxes):
+        max_ndia = max(obj.reso.shape[0] for obj in all_deltas)
         coadd_reso = np.zeros((max_ndia, nwaves))
         coadd_norm = np.zeros(nwaves)
 
-        for j, obj in enumerate([self, other]):
+        for j, obj in enumerate(all_deltas):
             weight = obj.weight.copy()
             weight[weight == 0] = 1e-8
 
@@ -1005,12 +1005,26 @@ class Delta():
         coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
-    def coadd(self, other, dwave=None):
+    def coadd(self, others, dwave=None):
+        """Coadds this delta with others. All deltas must be passed at once,
+        because the weight of a coadd is not the sum of input weights.
+
+        Arguments
+        ---------
+        others: Delta or list(Delta)
+            Other deltas of the same target.
+        dwave: float, default: None
+            Wavelength step size in A. ``None`` reads it from the header.
+        """
+        if isinstance(others, Delta):
+            others = [others]
+        all_deltas = [self, *others]
+
         if dwave is None:
             dwave = self.header.get('DELTA_LAMBDA', 0.8)
 
-        min_wave = min(self.wave[0], other.wave[0])
-        max_wave = max(self.wave[-1], other.wave[-1])
+        min_wave = min(obj.wave[0] for obj in all_deltas)
+        max_wave = max(obj.wave[-1] for obj in all_deltas)
 
         nwaves = int((max_wave - min_wave) / dwave + 0.1) + 1
         coadd_wave = np.linspace(min_wave, max_wave, nwaves)
@@ -1020,8 +1034,8 @@ class Delta():
         coadd_cont = np.zeros(nwaves)
         coadd_norm = np.zeros(nwaves)
 
-        idxes = [None, None]
-        for j, obj in enumerate([self, other]):
+        idxes = [None] * len(all_deltas)
+        for j, obj in enumerate(all_deltas):
             i0 = ((obj.wave[0] - min_wave) / dwave + 0.1).astype(int)
             idx = np.s_[i0:i0 + obj.wave.size]
             idxes[j] = idx
@@ -1047,7 +1061,7 @@ class Delta():
         coadd_ivar[w] = coadd_norm[w]**2 / coadd_ivar[w]
 
         if self.reso is not None:
-            self._coadd_reso(other, nwaves, idxes)
+            self._coadd_reso(all_deltas, nwaves, idxes)
 
         self.wave = coadd_wave
         self.delta = coadd_delta
-- 
2.43.0


From 3eaf50f24a0b88de91da6ac7225597ec731d122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:12 +0000
Subject: [PATCH 21/39] fix: coadd of blinded and unblinded deltas is saved as
 unblinded

---
 py/qsonic/spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index f2b0e51..c3f6cee 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1069,6 +1069,12 @@ class Delta():
         self.weight = self.ivar / (1 + self.ivar * coadd_lss)
         self.cont = coadd_cont
 
+        # Coadd is blinded if any one of the deltas is blinded
+        for obj in all_deltas:
+            if obj._is_blinded and not self._is_blinded:
+                self._is_blinded = True
+                self.header['BLINDING'] = obj.header['BLINDING']
+
         self.mean_snr = np.dot(
             np.sqrt(coadd_ivar), coadd_delta + 1
         ) / max(1, np.sum(coadd_ivar > 0))
-- 
2.43.0


From 2b112f4508370616079d10f894ee1eae43e905c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:02 +0000
Subject: [PATCH 22/39] fix: qsonic-calib ignores the remainder of delta files

---
 py/qsonic/scripts/qsonic_calib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 1cf9374..da903c4 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -160,9 +160,9 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         warnings.warn(
             "There are more MPI processes then number of delta files.")
 
-    nfiles_per_rank = max(1, ndelta_all // mpi_size)
-    i1 = nfiles_per_rank * mpi_rank
-    i2 = min(ndelta_all, i1 + nfiles_per_rank)
+    # Every file belongs to one rank, including the remainder
+    i1 = (ndelta_all * mpi_rank) // mpi_size
+    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size
     files_this_rank = all_delta_files[i1:i2]
 
     deltas_list = [qsonic.io.read_deltas(fname) for fname in files_this_rank]
-- 
2.43.0


From 6cf11c73402dd80a4067ff3743dc6ff4f33327a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:02 +0000
Subject: [PATCH 23/39] fix: qsonic-calib aborts if a process does not have
 deltas

---
 py/qsonic/scripts/qsonic_calib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index da903c4..a755472 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -174,7 +174,9 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 
 
 def mpi_stack_fluxes(args, comm, deltas_list):
-    dwave = deltas_list[0].header['DELTA_LAMBDA']
+    # Some processes may not have any deltas
+    dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else 0
+    dwave = comm.allreduce(dwave, max)
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
     waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
-- 
2.43.0


From 372758854da54833f69c05b5779dc2375ae7439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:02 +0000
Subject: [PATCH 24/39] fix: single TARGETID in remove-targetid-list of
 qsonic-calib

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index a755472..0b30b65 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -116,7 +116,7 @@ def mpi_set_targetid_list_to_remove(args, comm=None, mpi_rank=0):
         ids_to_remove = mpi_fnc_bcast(
             np.loadtxt, comm, mpi_rank,
             "Error while reading remove_targetid_list.",
-            args.remove_targetid_list, dtype=int)
+            args.remove_targetid_list, dtype=int, ndmin=1)
 
     if args.catalog:
         catalog = qsonic.catalog.mpi_read_quasar_catalog(
-- 
2.43.0


From a97441236d686264aabd045a691e23fc6f9a0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:02 +0000
Subject: [PATCH 25/39] fix: results depend on the order of directory listings

---
 py/qsonic/scripts/qsonic_calib.py        | 5 +++--
 py/qsonic/scripts/qsonic_coadd_deltas.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 0b30b65..ad6e033 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -149,10 +149,11 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
     start_time = time.time()
     logging.info("Reading deltas.")
 
-    all_delta_files = mpi_fnc_bcast(
+    # Sort since glob returns in arbitrary order
+    all_delta_files = sorted(mpi_fnc_bcast(
         glob.glob, comm, mpi_rank,
         f"Delta files are not found in {args.input_dir}.",
-        f"{args.input_dir}/delta-*.fits*")
+        f"{args.input_dir}/delta-*.fits*"))
 
     ndelta_all = len(all_delta_files)
     logging.info(f"There are {ndelta_all} delta files.")
diff --git a/py/qsonic/scripts/qsonic_coadd_deltas.py b/py/qsonic/scripts/qsonic_coadd_deltas.py
index 5ef640c..432e906 100644
--- a/py/qsonic/scripts/qsonic_coadd_deltas.py
+++ b/py/qsonic/scripts/qsonic_coadd_deltas.py
@@ -58,7 +58,7 @@ def read_dirs_to_dict(directories, nproc):
     logging.info("Making list of all delta files.")
     fnames = []
     for directory in directories:
-        fnames.extend(glob.glob(f"{directory}/delta-*.fits"))
+        fnames.extend(sorted(glob.glob(f"{directory}/delta-*.fits")))
 
     if not fnames:
         raise Exception("No delta files are found!")
-- 
2.43.0


From 3b7e5568617d335a2cba1950a8d2b14fa245ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:51 +0000
Subject: [PATCH 26/39] fix: smoothing var_lss fits with less than four valid
 bins

---
 py/qsonic/picca_continuum.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 5859ec3..d23f9e6 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -974,17 +974,21 @@ class VarLSSFitter():
 
         # Smooth new estimates
         if fit_results.ndim == 1:
+            k = min(3, w.sum() - 1)
             spl = UnivariateSpline(
-                self.waveobs[w], fit_results[w], w=1 / std_results[w])
+                self.waveobs[w], fit_results[w], w=1 / std_results[w], k=k)
 
             fit_results = spl(self.waveobs)
         # else ndim == 2
         else:
             w = w[:, 0]
+            k = min(3, w.sum() - 1)
             spl1 = UnivariateSpline(
-                self.waveobs[w], fit_results[w, 0], w=1 / std_results[w, 0])
+                self.waveobs[w], fit_results[w, 0], w=1 / std_results[w, 0],
+                k=k)
             spl2 = UnivariateSpline(
-                self.waveobs[w], fit_results[w, 1], w=1 / std_results[w, 1])
+                self.waveobs[w], fit_results[w, 1], w=1 / std_results[w, 1],
+                k=k)
 
             fit_results[:, 0] = spl1(self.waveobs)
             fit_results[:, 1] = spl2(self.waveobs)
-- 
2.43.0


From a17ff9538de7ecda6a54dac751b728fdb70f23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:51 +0000
Subject: [PATCH 27/39] fix: keep fiducial var_lss in the weights after the
 final variance fit

fit_final_varlss replaces the interpolators with fits that DO NOT go into
weights, but --coadd-arms after and --varlss-as-additive-noise used them.
---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index d23f9e6..ac8075f 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -574,8 +574,11 @@ class PiccaContinuumFitter():
 
         self.save(fattr)
         if self.varlss_fitter is None:
+            fiducials = (self.varlss_interp, self.eta_interp)
             self.fit_final_varlss(spectra_list)
             self.save(fattr, '-fit')
+            # These fits do not go into weights later either
+            self.varlss_interp, self.eta_interp = fiducials
 
         self.varlss_fitter.write(fattr)
         fattr.close()
-- 
2.43.0


From beecef3c06f27edc01d2c8eeb61fa44ed2190398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:27 +0000
Subject: [PATCH 28/39] fix: eta is in the weights twice after calibrating ivar
 with eta

---
 py/qsonic/scripts/qsonic_fit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4d7ed37..62806f5 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -12,6 +12,7 @@ import qsonic.catalog
 import qsonic.io
 import qsonic.spectrum
 import qsonic.masks
+from qsonic.mathtools import _one_function
 from qsonic.mpi_utils import mpi_parse
 from qsonic.picca_continuum import (
     PiccaContinuumFitter, add_picca_continuum_parser)
@@ -327,6 +328,9 @@ def mpi_continuum_fitting(spectra_list, args, comm, mpi_rank):
 
     valid_spectra = list(qsonic.spectrum.valid_spectra(spectra_list))
 
+    # IVAR values are already divided by eta if they are calibrated
+    eta_interp = _one_function if args.eta_calib_ivar else qcfit.eta_interp
+
     # Final noise calibration for additive var_lss.
     if args.noise_calibration and args.varlss_as_additive_noise:
         logging.info("Applying noise calibration (varlss only).")
@@ -337,12 +341,12 @@ def mpi_continuum_fitting(spectra_list, args, comm, mpi_rank):
 
         for spec in valid_spectra:
             spec.set_smooth_forestivar(spec._smoothing_scale)
-            spec.set_forest_weight(qcfit.varlss_interp, qcfit.eta_interp)
+            spec.set_forest_weight(qcfit.varlss_interp, eta_interp)
 
     if args.coadd_arms == "after":
         logging.info("Coadding arms.")
         for spec in valid_spectra:
-            spec.coadd_arms_forest(qcfit.varlss_interp, qcfit.eta_interp)
+            spec.coadd_arms_forest(qcfit.varlss_interp, eta_interp)
             spec.calc_continuum_chi2()
 
     qcfit.save_contchi2_catalog(spectra_list)
-- 
2.43.0


From c7562889398a23fc5de93d68eef5ea55baeba71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 29/39] fix: zero continuum at empty bins of the stacked flux

---
 py/qsonic/picca_continuum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index ac8075f..d76d0d1 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -496,9 +496,16 @@ class PiccaContinuumFitter():
 
         logging.info("Forcing stacked flux to be one.")
 
+        # Empty bins (e.g. sky lines) do not have a normalization
+        stacked_flux = self.flux_stacker.stacked_flux.copy()
+        stacked_flux[self.flux_stacker.weights == 0] = 1
+        norm_interp = FastLinear1DInterp(
+            self.flux_stacker.waveobs[0], self.flux_stacker.dwobs,
+            stacked_flux)
+
         for spec in valid_spectra(spectra_list):
             for arm, wave_arm in spec.forestwave.items():
-                spec.cont_params['cont'][arm] *= self.flux_stacker(wave_arm)
+                spec.cont_params['cont'][arm] *= norm_interp(wave_arm)
 
     def _eta_calibate_ivar(self, spectra_list):
         """Divides forest ivar values by eta estimates if ``--eta-calib-ivar``
-- 
2.43.0


From 7572f16951dd5410ff72eee0fbe8d95f2ec299e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:05 +0000
Subject: [PATCH 30/39] fix: sort exposures by survey when reading them after
 continuum fitting

---
 py/qsonic/scripts/qsonic_fit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 62806f5..38172d9 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -393,7 +393,11 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     local_catalog = np.hstack([_.catrow for _ in spectra_list])
 
     # local_catalog is not sorted
-    idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+    sort_order = ['HPXPIXEL', 'TARGETID']
+    # Healpix files are split by survey
+    if 'SURVEY' in local_catalog.dtype.names:
+        sort_order.insert(1, 'SURVEY')
+    idx_sort = local_catalog.argsort(order=sort_order)
     spectra_list = np.array(spectra_list)[idx_sort]
     local_catalog = local_catalog[idx_sort]
     # assert all(np.arange(idx_sort.size) == idx_sort)
-- 
2.43.0


From eaba3c591e7e4c87f7d50e470ea884d2f70d5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:05 +0000
Subject: [PATCH 31/39] fix: drop arms of exposures that are not in the coadded
 spectrum

---
 py/qsonic/scripts/qsonic_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 38172d9..78853aa 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -424,7 +424,8 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         spec.cont_params = spec_coadd.cont_params.copy()
         spec.cont_params['cont'] = {}
 
-        for arm, wave_arm in spec.forestwave.items():
+        # Arms can be dropped in this loop
+        for arm, wave_arm in list(spec.forestwave.items()):
             wave_coadd = spec_coadd.forestwave
             if arm not in wave_coadd:
                 spec.drop_arm(arm)
-- 
2.43.0


From 5c42f9f03ffe3089184b9689b0107681088f7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:21 +0000
Subject: [PATCH 32/39] fix: reading exposures on a process without valid
 spectra

---
 py/qsonic/scripts/qsonic_fit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 78853aa..d5c9117 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -390,6 +390,12 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     logging.info("Reading exposures and applying RSNR cut.")
     start_time = time.time()
 
+    # All valid spectra can be in other processes, which read collectively
+    if not spectra_list:
+        args.exposures = "before"
+        return mpi_read_calibrate_mask_select_spectra(
+            [], maskers, args, comm, mpi_rank)
+
     local_catalog = np.hstack([_.catrow for _ in spectra_list])
 
     # local_catalog is not sorted
-- 
2.43.0


From f07be0af5d6ac233029377192fd44fb884915879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:25 +0000
Subject: [PATCH 33/39] fix: catalog extension is chosen at random if there are
 several accepted ones

---
 py/qsonic/catalog.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index a707a33..b066ef6 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -12,8 +12,8 @@ from numpy.lib.recfunctions import rename_fields, append_fields
 from qsonic import QsonicException
 from qsonic.mpi_utils import balance_load, mpi_fnc_bcast
 
-_accepted_extnames = set(['QSO_CAT', 'ZCATALOG', 'METADATA'])
-"""set: Accepted extensions for quasar catalog."""
+_accepted_extnames = ['QSO_CAT', 'ZCATALOG', 'METADATA']
+"""list: Accepted extensions for quasar catalog. First one is used."""
 _required_columns = [
     set(['TARGETID']), set(['Z']), set(['TARGET_RA', 'RA']),
     set(['TARGET_DEC', 'DEC'])
@@ -297,14 +297,14 @@ def _read(filename):
     logging.info(f'Reading catalogue from {filename}')
     fitsfile = fitsio.FITS(filename)
     extnames = [hdu.get_extname() for hdu in fitsfile]
-    cat_hdu = _accepted_extnames.intersection(extnames)
+    cat_hdu = [_ for _ in _accepted_extnames if _ in extnames]
     if not cat_hdu:
         cat_hdu = 1
         warnings.warn(
             "Catalog HDU not found by hduname. Using extension 1.",
             RuntimeWarning)
     else:
-        cat_hdu = cat_hdu.pop()
+        cat_hdu = cat_hdu[0]
 
     colnames = fitsfile[cat_hdu].get_colnames()
     keep_columns = [col for col in colnames if col in _all_columns]
-- 
2.43.0


From 836b5822b8534b0d4076644d6b1a766fbda3e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:25 +0000
Subject: [PATCH 34/39] fix: DLA redshift column is chosen at random if Z_DLA
 and Z are present

---
 py/qsonic/masks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index 814dc10..0b247d1 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -389,11 +389,11 @@ class DLAMask():
         catalog: :external+numpy:py:class:`ndarray <numpy.ndarray>`
             DLA catalog.
         """
-        z_colname = DLAMask.accepted_zcolnames[0]
         fts = fitsio.FITS(fname)
 
-        fts_colnames = set(fts["DLACAT"].get_colnames())
-        z_colname = fts_colnames.intersection(DLAMask.accepted_zcolnames)
+        fts_colnames = fts["DLACAT"].get_colnames()
+        z_colname = [
+            _ for _ in DLAMask.accepted_zcolnames if _ in fts_colnames]
 
         if not z_colname:
             fts.close()
@@ -401,7 +401,7 @@ class DLAMask():
                 "DLA mask error::Z colname has to be one of "
                 f"{', '.join(DLAMask.accepted_zcolnames)}")
 
-        z_colname = z_colname.pop()
+        z_colname = z_colname[0]
         columns_list = ["TARGETID", z_colname, "NHI"]
         catalog = fts['DLACAT'].read(columns=columns_list)
 
-- 
2.43.0


From c3dab9aee8bde08eee5ba9af64db095e21921143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:25 +0000
Subject: [PATCH 35/39] fix: delta columns and keys are chosen at random if
 there are several accepted ones

---
 py/qsonic/spectrum.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c3f6cee..356ae40 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -896,12 +896,12 @@ class Delta():
     mean_snr: float
         MEANSNR from header.
     """
-    _accepted_wave_columns = set(["LAMBDA", "LOGLAM"])
-    """set: Supported column names for wavelength."""
-    _accepted_delta_columns = set(['DELTA', 'DELTA_BLIND'])
-    """set: Supported column names for delta."""
-    _accepted_targetid_keys = set(['MOCKID', 'TARGETID', 'THING_ID'])
-    """set: Supported header keys for unique ID."""
+    _accepted_wave_columns = ["LAMBDA", "LOGLAM"]
+    """list: Supported column names for wavelength. First one is used."""
+    _accepted_delta_columns = ['DELTA_BLIND', 'DELTA']
+    """list: Supported column names for delta. First one is used."""
+    _accepted_targetid_keys = ['TARGETID', 'MOCKID', 'THING_ID']
+    """list: Supported header keys for unique ID. First one is used."""
     _accepted_colums_map = {
         "wave": _accepted_wave_columns,
         "delta": _accepted_delta_columns
@@ -910,23 +910,24 @@ class Delta():
     @staticmethod
     def _check_hdu(colnames, attr):
         req_map = Delta._accepted_colums_map[attr]
-        key = req_map.intersection(colnames)
+        key = [_ for _ in req_map if _ in colnames]
         if not key:
             raise RuntimeError(
                 "One of these must be present in delta files: "
                 f"{', '.join(req_map)} for {attr}!")
 
-        return key.pop()
+        return key[0]
 
     def __init__(self, hdu):
         self.header = hdu.read_header()
-        key = Delta._accepted_targetid_keys.intersection(self.header.keys())
+        key = [_ for _ in Delta._accepted_targetid_keys
+               if _ in self.header.keys()]
         if not key:
             raise RuntimeError(
                 "One of these must be present in delta file header: "
                 f"{', '.join(Delta._accepted_targetid_keys)} for TARGETID!")
 
-        key = key.pop()
+        key = key[0]
         self.targetid = self.header[key]
         self.mean_snr = self.header['MEANSNR']
 
-- 
2.43.0


From 3c6caf28d5418d28a37d1d2971693af3dd4c08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:25 +0000
Subject: [PATCH 36/39] fix: order of arms changes from run to run

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index d5c9117..1fc51b4 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -59,7 +59,7 @@ def get_parser(add_help=True):
 
 
 def args_logic_fnc_qsonic_fit(args):
-    args.arms = list(set(args.arms))
+    args.arms = list(dict.fromkeys(args.arms))
     args.true_continuum |= (args.continuum_model == "true")
 
     condition_msg = [
-- 
2.43.0


From 227c487075bf7a848812169ee7314d892b36c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:26 +0000
Subject: [PATCH 37/39] fix: not-a-number is accepted as skip ratio

---
 py/qsonic/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 5e848ad..955d9f1 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -723,7 +723,7 @@ def _float_range(f1, f2):
             f = float(arg)
         except ValueError:
             raise argparse.ArgumentTypeError("must be a floating point number")
-        if f < f1 or f > f2:
+        if not (f1 <= f <= f2):
             raise argparse.ArgumentTypeError(f"must be in range [{f1}--{f2}]")
         return f
 
-- 
2.43.0


From add962ae3b401f9a1d1b16b6f6a471a78c2e6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:23 +0000
Subject: [PATCH 38/39] fix: resolution matrices are assigned to other spectra
 if some of the quasars are missing

---
 py/qsonic/io.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 955d9f1..ba9a293 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -176,15 +176,12 @@ def read_resolution_matrices_onehealpix_data(
     RuntimeWarning
         If number of quasars in the healpix file does not match the catalog.
     """
-    # assert (catalog_hpx.size == len(spectra_list))
-
     unique_surveys, s2 = np.unique(catalog_hpx['SURVEY'], return_index=True)
     survey_split_cat = np.split(catalog_hpx, s2[1:])
-    s2 = np.append(s2, len(spectra_list))
 
     arms_to_keep = spectra_list[0].wave.keys()
 
-    for ii, cat_by_survey in enumerate(survey_split_cat):
+    for cat_by_survey in survey_split_cat:
         survey = cat_by_survey['SURVEY'][0]
         pixnum = cat_by_survey['HPXPIXEL'][0]
         targetids_by_survey = cat_by_survey['TARGETID']
@@ -192,9 +189,10 @@ def read_resolution_matrices_onehealpix_data(
         fspec = (f"{input_dir}/{survey}/{program}/{pixnum//100}/"
                  f"{pixnum}/coadd-{survey}-{program}-{pixnum}.fits")
 
-        i1, i2 = s2[ii], s2[ii + 1]
-        spectra_list[i1:i2] = _read_onehealpix_file_onlyreso(
-            targetids_by_survey, fspec, arms_to_keep, spectra_list[i1:i2])
+        # spectra_list may not have all the quasars in the catalog
+        _read_onehealpix_file_onlyreso(
+            targetids_by_survey, fspec, arms_to_keep,
+            [_ for _ in spectra_list if _.catrow['SURVEY'] == survey])
 
     return spectra_list
 
@@ -480,15 +478,19 @@ def _read_onehealpix_file_onlyreso(
             f"catalog:{targetids_by_survey.size} vs "
             f"healpix:{common_targetids.size}!", RuntimeWarning)
 
+    idx_by_targetid = dict(zip(common_targetids, idx_fbr))
+
     for arm in arms_to_keep:
         imhdu = fitsfile[f'{arm}_RESOLUTION']
 
-        for jj, spec in zip(idx_fbr, spectra_list):
-            # assert (common_targetids[jj] == spec.targetid)
-
+        for spec in spectra_list:
             if arm not in spec.forestwave.keys():
                 continue
 
+            jj = idx_by_targetid.get(spec.targetid)
+            if jj is None:
+                continue
+
             f1 = spec._f1[arm]
             f2 = spec._f2[arm]
             spec._forestreso[arm] = imhdu[int(jj), :, f1:f2][0]
-- 
2.43.0


From f3e25f877e38507299d3a27a22ec5b54346be957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:07 +0000
Subject: [PATCH 39/39] fix: zero continuum at bins of the stacked flux without
 positive weight

---
 py/qsonic/picca_continuum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index d76d0d1..4418d64 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -498,7 +498,7 @@ class PiccaContinuumFitter():
 
         # Empty bins (e.g. sky lines) do not have a normalization
         stacked_flux = self.flux_stacker.stacked_flux.copy()
-        stacked_flux[self.flux_stacker.weights == 0] = 1
+        stacked_flux[~(self.flux_stacker.weights > 0)] = 1
         norm_interp = FastLinear1DInterp(
             self.flux_stacker.waveobs[0], self.flux_stacker.dwobs,
             stacked_flux)
-- 
2.43.0

