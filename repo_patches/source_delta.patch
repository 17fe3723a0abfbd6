From b730412f499329a56bf09b1198902d18a44df7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 01/26] fix: put values in the right bin for bins of unequal
 width

Values exactly on an edge went to the bin below (and were dropped at the first
edge), unlike for bins of equal width; and the default tolerances of allclose
treated bins with small or slightly different widths as equal.
---
 src/qp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9fe99bb..0517030 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -85,10 +85,10 @@ def get_bin_indices(bins, x):
     """
     widths = bin_widths(bins)
     n_bins = np.size(bins) - 1
-    if np.allclose(widths, widths[0]):
+    if np.allclose(widths, widths[0], rtol=1e-10, atol=0.0):
         idx = np.atleast_1d(np.floor((x - bins[0]) / widths[0]).astype(int))
     else:
-        idx = np.atleast_1d(np.searchsorted(bins, x, side="left") - 1)
+        idx = np.atleast_1d(np.searchsorted(bins, x, side="right") - 1)
     mask = (idx >= 0) * (idx < bins.size - 1)
     np.putmask(idx, 1 - mask, 0)
     xshape = np.shape(x)
-- 
2.43.0


From 14f311a9eddcda24fbe8ef2269974b86fa11791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 02/26] fix: only factor flattened (x, row) inputs that really
 are a product

The check compared the number of unique values only, and then evaluated at the
sorted unique values, so unsorted grids and per-PDF points that happened to
have the right number of distinct values gave wrong results.
---
 src/qp/utils.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 0517030..c8596dc 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -204,15 +204,14 @@ def get_eval_case(x, row):
         return CASE_PRODUCT, x, row
     if np.size(x) == 1 or np.size(row) == 1:
         return CASE_FLAT, x, row
-    xx = np.unique(x)
-    rr = np.unique(row)
-    if np.size(xx) == np.size(x):
-        xx = x
-    if np.size(rr) == np.size(row):
-        rr = row
-    if np.size(xx) * np.size(rr) != np.size(x):
+    n_row = np.size(np.unique(row))
+    if np.size(x) % n_row or np.size(row) % n_row:
         return CASE_FLAT, x, row
-    return CASE_FACTOR, xx, np.expand_dims(rr, -1)
+    x_2d = np.reshape(x, (n_row, -1))
+    row_2d = np.reshape(row, (n_row, -1))
+    if np.any(x_2d != x_2d[0]) or np.any(row_2d != row_2d[:, :1]):
+        return CASE_FLAT, x, row
+    return CASE_FACTOR, x_2d[0], row_2d[:, :1]
 
 
 def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
-- 
2.43.0


From aeeb1b9db0ac12602f4b39f33a126458c94b61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 03/26] fix: use the grid spacing in the moments of histograms
 and interpolated grids

The moments were Riemann sums with the width of the first bin or interval, so
they were wrong for any unevenly spaced bins or grid (the 0th moment was not 1).
---
 src/qp/hist_pdf.py          | 3 +--
 src/qp/interp_pdf.py        | 5 +++--
 src/qp/packed_interp_pdf.py | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 3195609..13d868d 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -140,9 +140,8 @@ class hist_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._hbins[1] - self._hbins[0]
         xv = 0.5 * (self._hbins[1:] + self._hbins[:-1])
-        return np.sum(xv**m * self._hpdfs, axis=1) * dx
+        return np.sum(xv**m * self._hpdfs * self._hbin_widths, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 60025d1..be98f34 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -154,8 +154,9 @@ class interp_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        dx = self._xvals[1:] - self._xvals[:-1]
+        fv = self._xvals**m * self._yvals
+        return np.sum(0.5 * (fv[:, 1:] + fv[:, :-1]) * dx, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 376c584..cb7f00c 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -213,10 +213,11 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
         if self._yvals is None:  # pragma: no cover
             self._unpack()
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        dx = self._xvals[1:] - self._xvals[:-1]
+        fv = self._xvals**m * self._yvals
+        return np.sum(0.5 * (fv[:, 1:] + fv[:, :-1]) * dx, axis=1)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From e7f75fc37b58dea36add5da14ca3bad4da083651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 04/26] fix: normalise per-PDF interpolated grids by their area

The area and the cdf were right-hand Riemann sums, so the linearly interpolated
pdf did not integrate to 1 and the cdf was not its integral.
---
 src/qp/interp_pdf.py | 5 +++--
 src/qp/utils.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index be98f34..7466940 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -292,8 +292,9 @@ class interp_irregular_gen(Pdf_rows_gen):
         self._ycumul = np.ndarray(copy_shape)
         self._ycumul[:, 0] = 0.0
         self._ycumul[:, 1:] = np.cumsum(
-            self._xvals[:, 1:] * self._yvals[:, 1:]
-            - self._xvals[:, :-1] * self._yvals[:, 1:],
+            (self._xvals[:, 1:] - self._xvals[:, :-1])
+            * 0.5
+            * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
 
diff --git a/src/qp/utils.py b/src/qp/utils.py
index c8596dc..ae511cd 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -117,7 +117,7 @@ def normalize_interp1d(xvals, yvals):
     # vv = np.vectorize(row_integral)
     # integrals = vv(np.arange(xvals.shape[0]))
     integrals = np.sum(
-        xvals[:, 1:] * yvals[:, 1:] - xvals[:, :-1] * yvals[:, 1:], axis=1
+        (xvals[:, 1:] - xvals[:, :-1]) * 0.5 * (yvals[:, 1:] + yvals[:, :-1]), axis=1
     )
     return (yvals.T / integrals).T
 
-- 
2.43.0


From 6b5c88a06de512c3389522b82be09fa1cd41a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 05/26] fix: convert to histograms by density, not by bin
 content

The bin contents were used as the densities of the new histogram, which is wrong
for bins of unequal width.  The conversion by samples also failed when the number
of PDFs was the same as the number of bins.
---
 src/qp/conversion_funcs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 85689b9..2087237 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -12,6 +12,7 @@ from .sparse_rep import (
     decode_sparse_indices,
     indices2shapes,
 )
+from .utils import bin_widths
 
 
 def extract_vals_at_x(in_dist, **kwargs):
@@ -110,7 +111,7 @@ def extract_hist_values(in_dist, **kwargs):
     if bins is None:  # pragma: no cover
         raise ValueError("To convert using extract_hist_samples you must specify bins")
     bins, pdfs = in_dist.histogramize(bins)
-    return dict(bins=bins, pdfs=pdfs)
+    return dict(bins=bins, pdfs=pdfs / bin_widths(np.asarray(bins)))
 
 
 def extract_hist_samples(in_dist, **kwargs):
@@ -140,11 +141,9 @@ def extract_hist_samples(in_dist, **kwargs):
     samples = in_dist.rvs(size=size)
 
     def hist_helper(sample):
-        return np.histogram(sample, bins=bins)[0]
+        return np.histogram(sample, bins=bins)[0] / bin_widths(bins)
 
-    vv = np.vectorize(
-        hist_helper, signature="(%i)->(%i)" % (samples.shape[0], bins.size - 1)
-    )
+    vv = np.vectorize(hist_helper, signature="(n)->(m)")
     pdfs = vv(samples)
     return dict(bins=bins, pdfs=pdfs)
 
-- 
2.43.0


From 285475f2ed028d0ee3efa647bb36ee37c05ae8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 06/26] fix: make the ensembles of a chunked read independent
 of each other

All the chunks shared the same dictionaries, so reading a chunk replaced the
ancillary data of the ensembles that were already returned.  Files without
ancillary data gave an empty dictionary instead of None.
---
 src/qp/factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index d00240c..335eb41 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -256,12 +256,13 @@ class Factory(OrderedDict):
             ancil_f, ancil_infp = (None, None)
         num_rows = io.getGroupInputDataLength(f)
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
-        data = self._build_data_dict(metadata, {})
-        ancil_data = OrderedDict()
         for start, end in ranges:
+            data = self._build_data_dict(metadata, {})
+            ancil_data = None
             for key, val in f.items():
                 data[key] = io.readHdf5DatasetToArray(val, start, end)
             if ancil_f is not None:
+                ancil_data = OrderedDict()
                 for key, val in ancil_f.items():
                     ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
             yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
-- 
2.43.0


From e518528b3b83de54e98e87ad5496c2f5e12fbc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 07/26] fix: use all the chunks in point metrics evaluated from
 iterators

Only the last chunk was passed on to finalize.
---
 src/qp/metrics/base_metric_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qp/metrics/base_metric_classes.py b/src/qp/metrics/base_metric_classes.py
index 5efa360..305c442 100644
--- a/src/qp/metrics/base_metric_classes.py
+++ b/src/qp/metrics/base_metric_classes.py
@@ -157,9 +157,10 @@ class PointToPointMetric(BaseMetric):
 
     def eval_from_iterator(self, estimate, reference):
         self.initialize()
+        centroids = []
         for estimate, reference in zip(estimate, reference):
-            centroids = self.accumulate(estimate, reference)
-        return self.finalize([centroids])
+            centroids.append(self.accumulate(estimate, reference))
+        return self.finalize(centroids)
 
     def evaluate(self, estimate, reference):
         raise NotImplementedError()
-- 
2.43.0


From 69c121fe2645c5d3eda89637af1d9e83bafe869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 08/26] fix: keep a copy of the grid of the cached pdf values

The caller's array was kept, so changing it in place changed the key of the cache
and the stale pdf values were returned for the new grid.
---
 src/qp/ensemble.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a3e4bba..17bc129 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -338,6 +338,7 @@ class Ensemble:
         the cached value
         """
         if self._gridded is None or not np.array_equal(self._gridded[0], grid):
+            grid = np.array(grid)
             self._gridded = (grid, self.pdf(grid))
         return self._gridded
 
-- 
2.43.0


From bf9a88cf92bfc7f2d06e2aa83eaca9f2e2f96106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 09/26] fix: do not change the caller's dictionary when adding
 ancillary columns

---
 src/qp/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 17bc129..309b536 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -262,7 +262,8 @@ class Ensemble:
         This calls dict.update() so it will overwrite existing columns
         """
         check_array_shapes(to_add, self.npdf)
-        self._ancil.update(to_add)
+        ancil = {} if self._ancil is None else self._ancil
+        self._ancil = {**ancil, **to_add}
 
     def append(self, other_ens):
         """Append another other_ens to this one
-- 
2.43.0


From 25f7e98480849ce4ee901ab920bf144ad9f6caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 10/26] fix: leave an ensemble as it was when an update is
 refused

With ancillary data of the wrong length the new PDFs were already in place when
the error was raised, next to the old ancillary data and the old cached pdf values.
---
 src/qp/ensemble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 309b536..7d01cba 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -170,7 +170,9 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        self._frozen = self._gen_func(**data)
+        frozen = self._gen_func(**data)
+        check_array_shapes(ancil, frozen.npdf)
+        self._frozen = frozen
         self._gen_obj = self._frozen.dist
         self.set_ancil(ancil)
         self._gridded = None
-- 
2.43.0


From 74d8cb9d0cc3802ccb5a6c9d09b4adcf1faabc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 11/26] fix: evaluate every PDF of a quantile ensemble with the
 spline based pdfs

With more than one PDF all of them were given the pdf values of the first one.
---
 src/qp/quant_pdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index fa80ef3..6d56c45 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -213,7 +213,12 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         # normalization function.
         # See qp issue #147
         row = args[0]
-        return self._pdf_constructor.construct_pdf(x, row)
+        yvals = self._pdf_constructor.construct_pdf(x, row)
+        if np.ndim(yvals) < 2:
+            return yvals
+        # Some constructors return the values at all of x for each of the rows
+        irow = np.unique(row, return_inverse=True)[1].reshape(np.shape(row))
+        return yvals[irow, np.arange(np.size(x))]
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From cb5e3f0bad55a9a95223b6bb468e88aa401e0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 12/26] fix: use the cdf of the right PDF in the ppf of
 gaussian mixtures

With points that differ between the PDFs the cdf values were looked up by the
wrong index, and drawing samples failed.
---
 src/qp/mixmod_pdf.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index e9cd405..546f25a 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -9,7 +9,7 @@ from qp.conversion_funcs import extract_mixmod_fit_samples
 from qp.factory import add_class
 from qp.pdf_gen import Pdf_rows_gen
 from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
-from qp.utils import get_eval_case, interpolate_multi_x_y, reshape_to_pdf_size
+from qp.utils import interpolate_multi_x_y, reshape_to_pdf_size
 
 
 class mixmod_gen(Pdf_rows_gen):
@@ -122,15 +122,7 @@ class mixmod_gen(Pdf_rows_gen):
         min_val = np.min(self._means - 6 * self._stds)
         max_val = np.max(self._means + 6 * self._stds)
         grid = np.linspace(min_val, max_val, 201)
-        case_idx, _, rr = get_eval_case(x, row)
-        if case_idx == 1:
-            cdf_vals = self.cdf(grid, rr)
-        elif case_idx == 3:
-            cdf_vals = self.cdf(grid, np.expand_dims(rr, -1))
-        else:  # pragma: no cover
-            raise ValueError(
-                f"Opps, we handle this kind of input to mixmod._ppf {case_idx}"
-            )
+        cdf_vals = self.cdf(grid, np.expand_dims(np.arange(self._npdf), -1))
         return interpolate_multi_x_y(
             x, row, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
         ).ravel()
-- 
2.43.0


From 67cc9a89c5a43285870c417d1b255555499eb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 13/26] fix: draw samples from a single quantile PDF

---
 src/qp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index ae511cd..bced00c 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -569,8 +569,8 @@ def interpolate_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
     def evaluate_row(rv, xv):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(evaluate_row, signature="(1),(%i)->(%i)" % (nx, nx))
-    return vv(row, x)
+    vv = np.vectorize(evaluate_row, signature="(),(%i)->(%i)" % (nx, nx))
+    return vv(np.squeeze(row), x)
 
 
 def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
-- 
2.43.0


From 2eb400cdb5169c58efd5335b58b7c9051adbae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 14/26] fix: calculate the Brier metric of a single PDF

---
 src/qp/metrics/metrics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index 1ccf600..ff9a99e 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -240,9 +240,8 @@ def _prepare_for_brier(p, truth, limits, dx=0.01):
     pdf_values = p.gridded(grid.grid_values)[1]
 
     # Create the NxM truth_array.
-    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array,
-    # thus we call np.squeeze to remove extra dimensions.
-    truth_array = np.squeeze([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
+    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array.
+    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
 
     # instantiate the Brier metric object
     return Brier(pdf_values, truth_array)
-- 
2.43.0


From e4f98396f5f1d011983622f32e50874bcead24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 15/26] fix: use the spacing of the grid in moment_partial

---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 7d01cba..2932744 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -607,7 +607,7 @@ class Ensemble:
         """Return the nth moments for this over a particular range"""
         D = int((limits[-1] - limits[0]) / dx)
         grid = np.linspace(limits[0], limits[1], D)
-        # dx = (limits[-1] - limits[0]) / (D - 1)
+        dx = (limits[-1] - limits[0]) / (D - 1)
 
         P_eval = self.gridded(grid)[1]
         grid_to_n = grid**n
-- 
2.43.0


From 77e451f639c2bf9c6bb827a745884d8d878ddc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 16/26] fix: keep the PDF axis in the goodness of fit of single
 samples

---
 src/qp/metrics/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index ff9a99e..cc8866c 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -457,7 +457,7 @@ def calculate_goodness_of_fit(
 
     return goodness_of_fit_metrics[fit_metric](
         reference,
-        np.squeeze(estimate.rvs(size=num_samples, random_state=_random_state)),
+        estimate.rvs(size=num_samples, random_state=_random_state),
     )
 
 
-- 
2.43.0


From 18534dd360674d87250facd0fd10d393631386ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 17/26] fix: keep the row axis of ancillary columns when one
 PDF is selected

---
 src/qp/ensemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 2932744..78f99d4 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -70,6 +70,8 @@ class Ensemble:
                 red_data[k] = v
         if self._ancil is not None:
             ancil = slice_dict(self._ancil, key)
+            if np.ndim(key) == 0 and not isinstance(key, slice):
+                ancil = {k: np.expand_dims(v, 0) for k, v in ancil.items()}
         else:
             ancil = None
         return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
-- 
2.43.0


From 11c9854328c0342ccf4beca4aab3ab3a994bd1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 18/26] fix: allocate spline columns for the number of PDFs
 asked for

---
 src/qp/spline_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index b31830d..22857a8 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -294,8 +294,8 @@ class spline_gen(Pdf_rows_gen):
         if "splx" not in kwargs:  # pragma: no cover
             raise ValueError("required argument splx not included in kwargs")
 
-        shape = np.shape(kwargs["splx"])
-        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((shape[0], 1), "i4"))
+        shape = (npdf, np.shape(kwargs["splx"])[-1])
+        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((npdf, 1), "i4"))
 
     @classmethod
     def plot_native(cls, pdf, **kwargs):
-- 
2.43.0


From 38706ff90577383cdeeb2e326fd2a9657162d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 19/26] fix: PIT of a single PDF, and chunk-wise accumulation
 of PIT samples that form no distribution of their own

---
 src/qp/metrics/concrete_metric_classes.py | 2 +-
 src/qp/metrics/pit.py                     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qp/metrics/concrete_metric_classes.py b/src/qp/metrics/concrete_metric_classes.py
index 00c7271..841ce01 100644
--- a/src/qp/metrics/concrete_metric_classes.py
+++ b/src/qp/metrics/concrete_metric_classes.py
@@ -276,7 +276,7 @@ class PITMetric(DistToPointMetricDigester):
         return pit_object.pit
 
     def accumulate(self, estimate, reference):
-        pit_samples = PIT(estimate, reference, self._eval_grid)._gather_pit_samples(estimate, reference)
+        pit_samples = PIT._gather_pit_samples(estimate, reference)
         digest = pytdigest.TDigest.compute(pit_samples, compression=self._tdigest_compression)
         centroids = digest.get_centroids()
         return centroids
diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index b83586b..7b5db35 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -174,7 +174,9 @@ class PIT:
 
     @classmethod
     def _gather_pit_samples(cls, qp_ens, true_vals):
-        pit_samples = np.squeeze(qp_ens.cdf(np.vstack(true_vals)))
+        pit_samples = np.atleast_1d(
+            np.squeeze(qp_ens.cdf(np.vstack(true_vals)))
+        )
 
         # These two lines set all `NaN` values to 0. This may or may not make sense
         # Alternatively if it's better to simply remove the `NaN`, this can be done
-- 
2.43.0


From d96f9e5d288f9f8003ec5b94e252aed4fba09b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 20/26] fix: evaluate densities and cumulatives at no points,
 as scipy's logcdf and logsf do

---
 src/qp/spline_pdf.py |  4 ++--
 src/qp/utils.py      | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index 22857a8..7141b37 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -251,7 +251,7 @@ class spline_gen(Pdf_rows_gen):
             )
 
         with errstate(all="ignore"):
-            vv = np.vectorize(pdf_row)
+            vv = np.vectorize(pdf_row, otypes=[float])
         return vv(x, row).ravel()
 
     def _cdf(self, x, row):
@@ -264,7 +264,7 @@ class spline_gen(Pdf_rows_gen):
             )
 
         with errstate(all="ignore"):
-            vv = np.vectorize(cdf_row)
+            vv = np.vectorize(cdf_row, otypes=[float])
         return vv(x, row).ravel()
 
     def _updated_ctor_param(self):
diff --git a/src/qp/utils.py b/src/qp/utils.py
index bced00c..166075d 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -202,7 +202,7 @@ def get_eval_case(x, row):
         )
     if nd_row >= 2:
         return CASE_PRODUCT, x, row
-    if np.size(x) == 1 or np.size(row) == 1:
+    if np.size(x) <= 1 or np.size(row) <= 1:
         return CASE_FLAT, x, row
     n_row = np.size(np.unique(row))
     if np.size(x) % n_row or np.size(row) % n_row:
@@ -246,7 +246,7 @@ def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no
             return np.where(maskv, vals[rv, idxv], 0)
         return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)
 
-    vv = np.vectorize(evaluate_row)
+    vv = np.vectorize(evaluate_row, otypes=[float])
     return vv(idx, mask, row, deltas)
 
 
@@ -385,7 +385,7 @@ def evaluate_hist_multi_x_multi_y_flat(
             return np.where(mask, vals[rv, idx], 0)
         return np.where(mask, vals[rv, idx] + delta * derivs[rv, idx], 0)
 
-    vv = np.vectorize(evaluate_row)
+    vv = np.vectorize(evaluate_row, otypes=[float])
     return vv(x, row)
 
 
@@ -516,7 +516,7 @@ def interpolate_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
@@ -625,7 +625,7 @@ def interpolate_multi_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals[rv], yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
@@ -740,7 +740,7 @@ def interpolate_multi_x_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals[rv], yvals, **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
-- 
2.43.0


From 82732baad93280f16ffbae4364275e91fa0250f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 21/26] fix: leave the sparse dictionary as it was between PDFs

Columns displaced by the pursuit of one PDF were not put back, so that the
indices of every later PDF pointed at the wrong columns.
---
 src/qp/sparse_rep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 008cd8e..97562d3 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -266,11 +266,12 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
     if verbose:
         print("Creating Sparse representation...")
 
+    work = A.copy()
     Sparse_Array = np.zeros((Ntot, Nsparse), dtype="int")
     for k in range(Ntot):
         pdf0 = P[k]
 
-        Dind, Dval = sparse_basis(A, pdf0, Nsparse, tolerance=tol)
+        Dind, Dval = sparse_basis(work, pdf0, Nsparse, tolerance=tol)
 
         if len(Dind) < 1:  # pragma: no cover
             continue
@@ -287,8 +288,9 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         sparse_ind = np.array(list(map(combine_int, index, Dind)))
         Sparse_Array[k, 0 : len(sparse_ind)] = sparse_ind
 
-        # swap back columns
-        A[:, [Dind]] = A[:, [np.arange(len(Dind))]]
+        # put back the columns that were swapped
+        moved = np.union1d(Dind, np.arange(len(Dind)))
+        work[:, moved] = A[:, moved]
 
     if verbose:
         print("done")
-- 
2.43.0


From 11efbf7dbdc3d9b20e396311e2741d22628896d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:53 +0000
Subject: [PATCH 22/26] fix: normalise each spline over its own range

---
 src/qp/spline_pdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index 7141b37..b1ccb27 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -42,7 +42,10 @@ def normalize_spline(xvals, yvals, limits, **kwargs):
         def spl(xv):
             return splev(xv, splrep(xvals[irow], yvals[irow]))
 
-        return quad(spl, limits[0], limits[1], **kwargs)[0]
+        # outside of its own points the spline does not count towards the cdf
+        low = max(limits[0], np.min(xvals[irow]))
+        high = min(limits[1], np.max(xvals[irow]))
+        return quad(spl, low, high, **kwargs)[0]
 
     vv = np.vectorize(row_integral)
     with errstate(all="ignore"):
-- 
2.43.0


From e989d9f10241ac3b47ce04321626b6e7f35fb8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:27 +0000
Subject: [PATCH 23/26] fix: concatenate and update by the object's own data
 whatever constructor was used

---
 src/qp/ensemble.py | 9 +++++++--
 src/qp/factory.py  | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 78f99d4..feb85ed 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -172,7 +172,10 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        frozen = self._gen_func(**data)
+        self._update_frozen(self._gen_func(**data), ancil)
+
+    def _update_frozen(self, frozen, ancil):
+        """Replace the frozen object"""
         check_array_shapes(ancil, frozen.npdf)
         self._frozen = frozen
         self._gen_obj = self._frozen.dist
@@ -195,7 +198,9 @@ class Ensemble:
             new_data[k] = np.squeeze(v)
         new_data.update(self.objdata())
         new_data.update(data)
-        self.update(new_data, ancil)
+        # these are the data of the object itself, however it was created
+        ctor = self._gen_class.creation_method(None)
+        self._update_frozen(ctor(**new_data), ancil)
 
     def metadata(self):
         """Return the metadata for this ensemble
diff --git a/src/qp/factory.py b/src/qp/factory.py
index 335eb41..3298042 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -338,7 +338,7 @@ class Factory(OrderedDict):
             metadata_list.append(ensemble.metadata())
             objdata_list.append(ensemble.objdata())
             if gen_func is None:
-                gen_func = ensemble.gen_func
+                gen_func = ensemble.gen_class.creation_method(None)
             if ancil_list is not None:
                 if ensemble.ancil is None:
                     ancil_list = None
-- 
2.43.0


From 751335e7fd34bf2401eeca204ceca02fa1357a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 24/26] fix: draw sampled PDFs on the axes given, keep labels
 and point counts from matplotlib, draw several PDFs

---
 src/qp/plotting.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index 0bff493..8f06c8e 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -75,7 +75,8 @@ def get_axes_and_xlims(**kwargs):
     if axes is None:
         if xlim is None:  # pragma: no cover
             raise ValueError("Either xlim or axes must be provided")
-        _, axes = make_figure_axes(xlim, **kwargs)
+        labels = {k: kwargs.pop(k) for k in ("xlabel", "ylabel") if k in kwargs}
+        _, axes = make_figure_axes(xlim, **labels)
     else:
         if xlim is not None:  # pragma: no cover
             raise ValueError("Only one of xlim and axes should be provided")
@@ -105,7 +106,8 @@ def plot_pdf_on_axes(axes, pdf, xvals, **kwargs):
     axes : The axes the data are plotted on
     """
     yvals = pdf.pdf(xvals)
-    axes.plot(np.squeeze(xvals), np.squeeze(yvals), **kwargs)
+    # one column for each PDF, when there are several
+    axes.plot(np.squeeze(xvals).T, np.squeeze(yvals).T, **kwargs)
     return axes
 
 
@@ -251,15 +253,15 @@ def plot_pdf_samples_on_axes(axes, pdf, samples, **kwargs):
     """
     kwargs.setdefault("label", "Samples")
     kwargs.setdefault("color", COLORS["samples"])
+    npoints = kwargs.pop("npoints", 101)
     axes.scatter(
         samples, np.zeros(np.shape(samples)), marker="|", s=100, alpha=0.75, **kwargs
     )
-    npoints = kwargs.pop("npoints", 101)
     xlim = axes.get_xlim()
     xvals = np.linspace(xlim[0], xlim[1], npoints)
     yvals = np.squeeze(pdf.pdf(xvals))
     kwargs.setdefault("label", "Samples Interpolated PDF")
-    plt.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["samples"], **kwargs)
+    axes.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["samples"], **kwargs)
     return axes
 
 
-- 
2.43.0


From 2d2338971953eeba76f1782834d582e263e77b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:48 +0000
Subject: [PATCH 25/26] fix: samples and modes of ensembles arranged in several
 dimensions

---
 src/qp/ensemble.py | 7 +++----
 src/qp/pdf_gen.py  | 5 +++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index feb85ed..0a23ca0 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -328,7 +328,7 @@ class Ensemble:
         consistent with mean, median, and other point estimates
         """
         new_grid, griddata = self.gridded(grid)
-        return np.expand_dims(new_grid[np.argmax(griddata, axis=1)], -1)
+        return np.expand_dims(new_grid[np.argmax(griddata, axis=-1)], -1)
 
     def gridded(self, grid):
         """Build, cache are return the PDF values at grid points
@@ -495,9 +495,8 @@ class Ensemble:
         Returns
         -------
         """
-        return self._frozen.rvs(
-            size=(self._frozen.npdf, size), random_state=random_state
-        )
+        shape = self.shape if self.ndim > 1 else (self.npdf,)
+        return self._frozen.rvs(size=(*shape, size), random_state=random_state)
 
     def stats(self, moments="mv"):
         """
diff --git a/src/qp/pdf_gen.py b/src/qp/pdf_gen.py
index 80dfbbf..c9821ea 100644
--- a/src/qp/pdf_gen.py
+++ b/src/qp/pdf_gen.py
@@ -312,6 +312,11 @@ class Pdf_rows_gen(rv_continuous, Pdf_gen):
     def _rvs(self, *args, size=None, random_state=None):
         # Use basic inverse cdf algorithm for RV generation as default.
         U = random_state.uniform(size=size)
+        if np.ndim(U) > 2:
+            # PDFs arranged in several dimensions: evaluate them as one row each
+            rows = np.shape(U)[:-1] + (1,)
+            args = [np.broadcast_to(arg, rows).reshape(-1, 1) for arg in args]
+            U = U.reshape(-1, np.shape(U)[-1])
         Y = self._ppf(U, *args)
         if size is None:  # pragma: no cover
             return Y
-- 
2.43.0


From 183e38e303cc4f92c5fa118db0e1ffc3727709ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:48 +0000
Subject: [PATCH 26/26] fix: the second derivative of piecewise constant
 reconstructions was not divided by the spacing

---
 src/qp/quantile_pdf_constructors/piecewise_constant.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/quantile_pdf_constructors/piecewise_constant.py b/src/qp/quantile_pdf_constructors/piecewise_constant.py
index 9b85dc2..e018366 100644
--- a/src/qp/quantile_pdf_constructors/piecewise_constant.py
+++ b/src/qp/quantile_pdf_constructors/piecewise_constant.py
@@ -40,13 +40,14 @@ class PiecewiseConstant(AbstractQuantilePdfConstructor):
 
         self._cdf_derivatives[:,0:-1] = (self._quantiles[1:] - self._quantiles[0:-1])/\
           (self._locations[:,1:] - self._locations[:,0:-1])
-        self._cdf_2nd_derivatives[:,0:-1] = self._cdf_derivatives[:,1:]  - self._cdf_derivatives[:,0:-1]
 
         # Offset the locations by -(l_[i+1] - l_i) / 2. So that the cdf_deriv can be correctly located.
         # This offset is necessary to correctly place the _cdf_derivs because we are using a
         # forward difference to calculate the numerical derivative.
         self._adjusted_locations = self._locations[:,1:]-np.diff(self._locations)/2
 
+        # The change of the derivative from one adjusted location to the next, per unit of x.
+        self._cdf_2nd_derivatives[:,0:-2] = np.diff(self._cdf_derivatives[:,0:-1])/np.diff(self._adjusted_locations)
 
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """Take the intermediate calculations and return the interpolated y values
-- 
2.43.0

