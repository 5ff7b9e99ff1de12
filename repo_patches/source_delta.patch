From 18d4fe23e68e757fa638c407718a4ec6d6a6665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 01/46] fix: flag integrations without any usable segment as
 DO_NOT_USE in OLS_C

A ramp with no usable segment whose groups are not all saturated or
DO_NOT_USE (for example DO_NOT_USE, JUMP, JUMP, JUMP) returned a valid
looking slope of zero with zero error instead of NaN and DO_NOT_USE.
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 7267993..3cf629d 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -3103,6 +3103,8 @@ ramp_fit_pixel_integration_fit_slope(
     real_t invvar_r = 0., invvar_p = 0., invvar_e = 0., slope_i_num = 0., var_err;
 
     if (pr->segs[integ].size == 0) {
+        /* No usable segments, so there is no slope for this integration. */
+        pr->rateints[integ].dq |= rd->dnu;
         return ret;
     }
 
-- 
2.43.0


From dc301c1a5d3d4ee0d20be52a5abd884010125b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 02/46] fix: treat PERSISTENCE-only groups as usable when
 choosing the zero frame in OLS_C

The segments of a ramp ignore the PERSISTENCE flag, but the count of good
groups did not: a perfectly usable ramp flagged PERSISTENCE in every group
had its first group replaced by the zero frame, and a single usable group
flagged PERSISTENCE was given the wrong exposure time.
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 3cf629d..67f0986 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -1826,7 +1826,7 @@ get_pixel_ramp(
         pr->max_crs = (pr->max_crs < pr->crs[integ].size) ? pr->crs[integ].size : pr->max_crs;
         /* Check for 0th group and ZEROFRAME */
         if (!rd->suppress1g) {
-            if ((1 == pr->stats[integ].cnt_good) && (0 == pr->groupdq[integ_idx])) {
+            if ((1 == pr->stats[integ].cnt_good) && (0 == (pr->groupdq[integ_idx] & ~rd->pers))) {
                 pr->is_0th[integ] = 1;
             } else if ((0 == pr->stats[integ].cnt_good) && ((PyObject *) rd->zframe) != Py_None) {
                 zframe = (real_t) rd->get_zframe(rd->zframe, integ, row, col);
@@ -1889,7 +1889,8 @@ get_pixel_ramp_integration(
     if (pr->groupdq[idx] & rd->chargeloss) {
         pr->stats[integ].chargeloss = 1;
     }
-    if (0 == pr->groupdq[idx]) {
+    /* As for the segments, groups flagged as only PERSISTENCE are usable. */
+    if (0 == (pr->groupdq[idx] & ~rd->pers)) {
         pr->stats[integ].cnt_good++;
     } else if (pr->groupdq[idx] & rd->dnu) {
         pr->stats[integ].cnt_dnu++;
-- 
2.43.0


From 8452a6ab745f70b5259aa1722a2adff6baa2c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 03/46] fix: do not zero the slope of pixels with a large read
 noise variance in OLS_C

The weighted mean slope was formed by multiplying with the read noise
variance after that was replaced by zero for exceeding the large variance
threshold, so noisy pixels with short group times got a rate of exactly zero.
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 67f0986..da97db7 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2874,6 +2874,8 @@ ramp_fit_pixel(
         pr->rate.var_poisson = 0.;
     }
     if (pr->rate.var_rnoise > 0.) {
+        /* The weight sum, before a large variance is replaced below. */
+        pr->rate.slope = pr->rate.slope / pr->rate.var_rnoise; // JP-4318
         pr->rate.var_rnoise = 1. / pr->rate.var_rnoise;
     }
     if (pr->rate.var_rnoise >= LARGE_VARIANCE_THRESHOLD) {
@@ -2893,11 +2895,6 @@ ramp_fit_pixel(
         pr->rate.dq |= rd->sat;
     }
 
-    if (!isnan(pr->rate.slope)) {
-        pr->rate.slope = pr->rate.slope * pr->rate.var_rnoise;
-        ; // JP-4318
-    }
-
 #if 0
     if (is_pix_in_list(rd, pr)) {
         DBG_RATE_INFO;  /* XXX */
@@ -3153,7 +3150,7 @@ ramp_fit_pixel_integration_fit_slope(
     } else {
         var_err = 1. / invvar_e;
 
-        pr->rateints[integ].slope = slope_i_num * pr->rateints[integ].var_rnoise; // JP-4318
+        pr->rateints[integ].slope = slope_i_num / invvar_r; // JP-4318
         if (var_err > LARGE_VARIANCE_THRESHOLD) {
             pr->rateints[integ].var_err = 0.;
         } else {
-- 
2.43.0


From 1b200ecfa2899f751101603f8434ffe5badcc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 04/46] fix: one-group median rate ignores saturated
 integrations in OLS_C

With one group per integration a single saturated integration made the
median rate NaN, which removed the Poisson variance of all integrations of
that pixel; unusable groups and zero frames were also not told apart.
---
 src/stcal/ramp_fitting/src/slope_fitter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index da97db7..0322f74 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2299,11 +2299,15 @@ median_rate_1ngroup(
     struct pixel_ramp *pr) /* The pixel ramp data */
 {
     npy_intp idx, integ;
-    real_t accum_mrate = 0.;
-    real_t timing = rd->one_group_time;
+    real_t accum_mrate = 0., timing;
 
     for (integ = 0; integ < rd->nints; integ++) {
         idx = get_ramp_index(rd, integ, 0);
+        /* As for longer ramps, integrations without a valid group add nothing. */
+        if (isnan(pr->data[idx]) || (pr->groupdq[idx] & rd->dnu)) {
+            continue;
+        }
+        timing = pr->is_zframe[integ] ? rd->frame_time : rd->one_group_time;
         accum_mrate += (pr->data[idx] / timing);
     }
     pr->median_rate = accum_mrate / (real_t) rd->nints;
-- 
2.43.0


From 30fc269f6cd1936b16421eafda2dd4eca338161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 05/46] fix: carry the one-group suppression setting into the
 row slices of OLS_C

---
 src/stcal/ramp_fitting/ols_fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 86f8a13..9bf2117 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -510,6 +510,9 @@ def slice_ramp_data(ramp_data, start_row, nrows):
     ramp_data_slice.flags_unreliable_slope = ramp_data.flags_unreliable_slope
     ramp_data_slice.flags_chargeloss = ramp_data.flags_chargeloss
 
+    # Carry over the suppression of one group ramps.
+    ramp_data_slice.suppress_one_group_ramps = ramp_data.suppress_one_group_ramps
+
     # For possible CHARGELOSS flagging.
     if ramp_data.orig_gdq is not None:
         ogdq = ramp_data.orig_gdq[:, :, start_row : start_row + nrows, :].copy()
-- 
2.43.0


From 04d68a6f5cfff7f5591735725e177f349b17b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 06/46] fix: byte swap the zero frame along with the other
 arrays in OLS_C

---
 src/stcal/ramp_fitting/ols_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 9bf2117..de3eab2 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -666,6 +666,8 @@ def endianness_handler(ramp_data, gain_2d, readnoise_2d):
     ramp_data.average_dark_current, _ = handle_array_endianness(ramp_data.average_dark_current, sys_order)
     ramp_data.groupdq, _ = handle_array_endianness(ramp_data.groupdq, sys_order)
     ramp_data.pixeldq, _ = handle_array_endianness(ramp_data.pixeldq, sys_order)
+    if ramp_data.zeroframe is not None:
+        ramp_data.zeroframe, _ = handle_array_endianness(ramp_data.zeroframe, sys_order)
 
     return ramp_data, gain_2d, readnoise_2d, (rn_bswap, gain_bswap)
 
-- 
2.43.0


From e0c030442bbd062bc0b2b6a1591a21d34cf911ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 07/46] fix: do not divide by a vanishing term in the
 two-difference omission of LIKELY

---
 src/stcal/ramp_fitting/likely_fit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 978f1dc..c6b5b96 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -746,8 +746,9 @@ def compute_jump_detects(result, ndiffs, diffs2use, dC, dB, A, B, C, scale, beta
     with warnings.catch_warnings():
         warnings.simplefilter("ignore")
         # best-fit a, b, c
-        c = bcpj_fac / cpj_fac - (B * dC[1:] - dB[1:] * C) / cjck_fac
-        c /= cjck_fac / cpj_fac - (dC[1:] ** 2 - C * Cinv_diag[1:]) / cjck_fac
+        # (cjck_fac may be zero, so do not divide by it)
+        c = bcpj_fac * cjck_fac - (B * dC[1:] - dB[1:] * C) * cpj_fac
+        c /= cjck_fac**2 - (dC[1:] ** 2 - C * Cinv_diag[1:]) * cpj_fac
         b = (bcpj_fac - c * cjck_fac) / cpj_fac
         a = (B - b * dC[:-1] - c * dC[1:]) / C
         result.countrate_two_omit = a
-- 
2.43.0


From 4716aed6a9fcf5b753d1645f713d84537c59a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 08/46] fix: only drop the difference pairs that LIKELY may
 omit

---
 src/stcal/ramp_fitting/likely_fit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index c6b5b96..5dbc1bb 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -306,8 +306,8 @@ def mask_jumps(
         # Now make the masks for which resultant difference(s) to
         # drop, count the number of ramps affected, and drop them.
         # If no ramps were affected break the loop.
-        dropone = (dchisq_one == best_dchisq) & (onedropbetter)
-        droptwo = (dchisq_two == best_dchisq) & (~onedropbetter)
+        dropone = (dchisq_one == best_dchisq) & (onedropbetter) & one_omit_ok[:, np.newaxis]
+        droptwo = (dchisq_two == best_dchisq) & (~onedropbetter) & two_omit_ok[:, np.newaxis]
 
         drop = np.any([np.sum(dropone, axis=0), np.sum(droptwo, axis=0)], axis=0)
 
-- 
2.43.0


From e535fc7e36747bab70c217d30bff7e938a731d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 09/46] fix: do not modify the read pattern of the ramp data in
 LIKELY

---
 src/stcal/ramp_fitting/likely_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 5dbc1bb..bde4353 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -48,7 +48,8 @@ def likely_ramp_fit(ramp_data, readnoise_2d, gain_2d, jump_data=None):
     if ngroups < LIKELY_MIN_NGROUPS:
         raise ValueError("Likelihood fit requires at least 4 groups.")
 
-    readtimes = get_readtimes(ramp_data)
+    # Copy the list, since it is modified below if there is a zeroframe
+    readtimes = list(get_readtimes(ramp_data))
 
     # Check for a zeroframe
     use_zeroframe = False
-- 
2.43.0


From b89187431a9d62a5c25935c6a41b9ff96146ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 10/46] fix: return the slope and variances of a single 1-D
 ramp in fit_ramps_casertano

---
 src/stcal/ramp_fitting/ols_cas22_fit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22_fit.py b/src/stcal/ramp_fitting/ols_cas22_fit.py
index 533cebd..45b8ba9 100644
--- a/src/stcal/ramp_fitting/ols_cas22_fit.py
+++ b/src/stcal/ramp_fitting/ols_cas22_fit.py
@@ -133,10 +133,6 @@ def fit_ramps_casertano(
     variances = output.variances.reshape(orig_shape[1:] + (3,))
     dq = output.dq.reshape(orig_shape)
 
-    if resultants.shape != orig_shape:
-        parameters = parameters[0]
-        variances = variances[0]
-
     if resultants_unit is not None:
         parameters = parameters * resultants_unit
 
-- 
2.43.0


From 1c0e1ff5800c786a7e9b2fb670a868750c746c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 11/46] fix: an undefined last statistic no longer hides jumps
 in the Casertano ramp fit

---
 src/stcal/ramp_fitting/ols_cas22/_jump.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22/_jump.pyx b/src/stcal/ramp_fitting/ols_cas22/_jump.pyx
index 7ec7176..ad3ad24 100644
--- a/src/stcal/ramp_fitting/ols_cas22/_jump.pyx
+++ b/src/stcal/ramp_fitting/ols_cas22/_jump.pyx
@@ -379,8 +379,9 @@ cdef inline (int, float) _fit_statistic(float[:, :] pixel,
                           correct)
         stat = fmaxf(stat1, stat2)
 
-        # If this is larger than the current max, update the max
-        if stat > max_stat:
+        # If this is larger than the current max (or the current max is an
+        #    undefined statistic), update the max
+        if stat > max_stat or isnan(max_stat):
             max_stat = stat
             argmax = stat_index
 
-- 
2.43.0


From 96e224b1a6f3a65ef742f146a54828ac784aa5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 12/46] fix: clip a single first difference from the median
 when several share the maximum

---
 src/stcal/jump/twopoint_difference.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 952cb41..6c35e74 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -755,8 +755,11 @@ def calc_med_first_diffs(in_first_diffs):
         warnings.filterwarnings("ignore", ".*All-NaN slice encountered.*", RuntimeWarning)
 
         # Four or more usable diffs: mask the largest difference.
+        # Only one of them if several are equal.
         maxval = np.nanmax(first_diffs, axis=(0, 1))
-        first_diffs[fourgrps & (first_diffs == maxval)] = np.nan
+        is_max = (first_diffs == maxval).reshape(nints * ndiffs, *maxval.shape)
+        is_max &= np.cumsum(is_max, axis=0) == 1
+        first_diffs[fourgrps & is_max.reshape(first_diffs.shape)] = np.nan
 
         # Three or more usable diffs: take the median
         median_diffs = np.nanmedian(first_diffs, axis=(0, 1))
-- 
2.43.0


From dd1966462292d337fd73cc1f0c96f520a8658f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 13/46] fix: count unusable groups of all integrations when
 deciding on sigma clipping

---
 src/stcal/jump/twopoint_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 6c35e74..7859fad 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -663,7 +663,7 @@ def groups_all_set_dnu(nints, ngroups, gdq, twopt_p):
     if twopt_p.only_use_ints:
         total_sigclip_groups = nints
     else:
-        total_sigclip_groups = nints * ngroups - num_flagged_grps
+        total_sigclip_groups = nints * ngroups - total_flagged_grps
 
     min_usable_groups = ngroups - max_flagged_grps
     total_groups = nints * ngroups - total_flagged_grps
-- 
2.43.0


From e2e8644d035a4a111bd18e74ca3819b5993d8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 14/46] fix: honour the minimum number of groups whatever the
 number of slices in jump detection

---
 src/stcal/jump/jump.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 9069ed6..148bd3b 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -90,7 +90,6 @@ def detect_jumps_data(jump_data):
 
     twopt_params = TwoPointParams(jump_data)
     if n_slices == 1:
-        twopt_params.minimum_groups = 3
         gdq, row_below_dq, row_above_dq, total_primary_crs = twopt.find_crs(
             data, gdq, readnoise_2d, twopt_params
         )
-- 
2.43.0


From 2263e3fd116e3884be9596ac72afdabb735b5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 15/46] fix: jump detection in row slices gives the same flags
 as in one piece

---
 src/stcal/jump/jump.py                | 62 ++++++++++-----------------
 src/stcal/jump/twopoint_difference.py | 18 +++++---
 2 files changed, 35 insertions(+), 45 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 148bd3b..a4f66bc 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -189,13 +189,7 @@ def reassemble_sliced_data(real_result, gdq, yinc):
     total_primary_crs : int
         Total number of primary cosmic rays detected.
     """
-    nints, ngroups, nrows, ncols = gdq.shape
-    row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
-    previous_row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
-    row_below_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
-
-    # Reconstruct gdq, the row_above_gdq, and the row_below_gdq from the
-    # slice result
+    nrows = gdq.shape[2]
     total_primary_crs = 0
 
     # Reassemble the data
@@ -204,19 +198,10 @@ def reassemble_sliced_data(real_result, gdq, yinc):
             gdq[:, :, k * yinc : nrows, :] = resultslice[0]
         else:
             gdq[:, :, k * yinc : (k + 1) * yinc, :] = resultslice[0]
-        row_below_gdq[:, :, :] = resultslice[1]
-        row_above_gdq[:, :, :] = resultslice[2]
-        total_primary_crs += resultslice[3]
-        if k != 0:
-            # For all but the first slice, flag any CR neighbors in the top
-            # row of the previous slice and flag any neighbors in the
-            # bottom row of this slice saved from the top of the previous
-            # slice
-            gdq[:, :, k * yinc - 1, :] |= row_below_gdq[:, :, :]
-            gdq[:, :, k * yinc, :] |= previous_row_above_gdq[:, :, :]
-
-        # save the neighbors to be flagged that will be in the next slice
-        previous_row_above_gdq = row_above_gdq.copy()
+        if resultslice[3] == -99:  # no detection in any of the slices
+            total_primary_crs = -99
+        else:
+            total_primary_crs += resultslice[3]
 
     return gdq, total_primary_crs
 
@@ -254,31 +239,28 @@ def slice_data(twopt_params, data, gdq, readnoise_2d, n_slices):
     nrows = data.shape[2]
     yinc = nrows // n_slices
     slices = []
+    # The decisions that depend on the number of usable groups are those of the
+    # whole image
+    twopt_params.group_counts = twopt.groups_all_set_dnu(gdq.shape[0], gdq.shape[1], gdq, twopt_params)
+
     # Slice up data, gdq, readnoise_2d into slices
     # Each element of slices is a tuple of
-    # (data, gdq, readnoise_2d, rejection_thresh, three_grp_thresh,
-    #  four_grp_thresh, nframes)
-    for i in range(n_slices - 1):
-        slices.insert(
-            i,
+    # (data, gdq, readnoise_2d, twopt_params, rows)
+    # A slice includes the adjacent rows of its neighbors (all but rows), whose
+    # jumps may spread into it.
+    for i in range(n_slices):
+        start = i * yinc
+        stop = (i + 1) * yinc if i < n_slices - 1 else nrows  # last slice gets the rest
+        first, last = max(start - 1, 0), min(stop + 1, nrows)
+        slices.append(
             (
-                data[:, :, i * yinc : (i + 1) * yinc, :],
-                gdq[:, :, i * yinc : (i + 1) * yinc, :],
-                readnoise_2d[i * yinc : (i + 1) * yinc, :],
+                data[:, :, first:last, :],
+                gdq[:, :, first:last, :],
+                readnoise_2d[first:last, :],
                 twopt_params,
-            ),
+                slice(start - first, stop - first),
+            )
         )
-
-    # last slice get the rest
-    slices.insert(
-        n_slices - 1,
-        (
-            data[:, :, (n_slices - 1) * yinc : nrows, :],
-            gdq[:, :, (n_slices - 1) * yinc : nrows, :],
-            readnoise_2d[(n_slices - 1) * yinc : nrows, :],
-            twopt_params,
-        ),
-    )
     return slices, yinc
 
 
diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 7859fad..fbdb851 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -8,7 +8,7 @@ from astropy.utils.exceptions import AstropyUserWarning
 log = logging.getLogger(__name__)
 
 
-def find_crs(data, group_dq, read_noise, twopt_p):
+def find_crs(data, group_dq, read_noise, twopt_p, rows=slice(None)):
     """
     Detect jump due to cosmic rays using the two point difference method.
 
@@ -22,6 +22,9 @@ def find_crs(data, group_dq, read_noise, twopt_p):
         The read noise of each pixel
     twopt_p : TwoPointParams
         Class containing two point difference parameters.
+    rows : slice
+        The rows to return and count.  The others only contribute the jumps
+        that are spread to their neighbors.
 
     Returns
     -------
@@ -43,7 +46,10 @@ def find_crs(data, group_dq, read_noise, twopt_p):
     row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
     row_below_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
 
-    ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
+    # For a slice of an image the groups are those of the whole image.
+    ngroups_ans = getattr(twopt_p, "group_counts", None)
+    if ngroups_ans is None:
+        ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
     min_usable_groups = ngroups_ans[0]
     total_groups = ngroups_ans[1]
     min_usable_diffs = ngroups_ans[2]
@@ -60,20 +66,22 @@ def find_crs(data, group_dq, read_noise, twopt_p):
 
     if total_noise_min_grps_fails and sig_clip_grps_fails:
         log.info("Jump Step was skipped because exposure has less than the minimum number of usable groups")
-        return group_dq, row_below_gdq, row_above_gdq, -99
+        return group_dq[:, :, rows], row_below_gdq, row_above_gdq, -99
 
     group_dq, first_diffs, median_diffs, sigma = run_jump_detection(
         data, group_dq, ndiffs, read_noise_2, nints, ngroups, total_groups, min_usable_diffs, twopt_p
     )
 
     # sum by integration to avoid large temporary arrays
-    num_primary_crs = np.sum([np.count_nonzero(per_group_dq & twopt_p.fl_jump) for per_group_dq in group_dq])
+    num_primary_crs = np.sum(
+        [np.count_nonzero(per_group_dq[:, rows] & twopt_p.fl_jump) for per_group_dq in group_dq]
+    )
 
     group_dq, row_below_gdq, row_above_gdq = jump_detection_post_processing(
         group_dq, nints, ngroups, first_diffs, median_diffs, sigma, row_below_gdq, row_above_gdq, twopt_p
     )
 
-    return group_dq, row_below_gdq, row_above_gdq, num_primary_crs
+    return group_dq[:, :, rows], row_below_gdq, row_above_gdq, num_primary_crs
 
 
 def jump_detection_post_processing(
-- 
2.43.0


From 3d392581201aaafc97a87bd8296a42c9b436cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 16/46] fix: flag large events in integrations of two groups

---
 src/stcal/jump/jump.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index a4f66bc..a9462a2 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -329,8 +329,10 @@ def flag_large_events(gdq, jump_flag, sat_flag, jump_data):
                 next_sat = np.bitwise_and(next_gdq, sat_flag)
                 not_current_sat = np.logical_not(current_sat)
                 next_new_sat = next_sat * not_current_sat
+                next_sat_ellipses = find_ellipses(next_new_sat, sat_flag, jump_data.min_sat_area)
+            else:
+                next_sat_ellipses = []
 
-            next_sat_ellipses = find_ellipses(next_new_sat, sat_flag, jump_data.min_sat_area)
             sat_ellipses = find_ellipses(new_sat, sat_flag, jump_data.min_sat_area)
 
             # find the ellipse parameters for jump regions
-- 
2.43.0


From a533907634f4c7ccf765a097076c65f226cae710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 17/46] fix: extending saturated cores of snowballs keeps the
 other group flags

---
 src/stcal/jump/jump.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index a9462a2..e4c6948 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -430,7 +430,9 @@ def extend_saturation(cube, grp, sat_ellipses, jump_data, persist_jumps):
 
             is_sat = sat_ellipse == satcolor
             for i in range(grp, cube.shape[0]):
-                cube[i][iy1:iy2, ix1:ix2][is_sat] = jump_data.fl_sat
+                # Saturation replaces a jump, and leaves the other flags alone.
+                core = cube[i][iy1:iy2, ix1:ix2]
+                core[is_sat] = (core[is_sat] & ~np.uint8(jump_data.fl_jump)) | jump_data.fl_sat
 
             ax1, ax2 = (ellipse[1][0], ellipse[1][1])
             indx, persist_ellipse = ellipse_subim(ceny, cenx, ax1, ax2, alpha, satcolor, (nrows, ncols))
-- 
2.43.0


From a15a646a51c783c459fa8fad79a8a08005cacaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 18/46] fix: find the edges of images that are not square when
 flagging snowballs

---
 src/stcal/jump/jump.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index e4c6948..ffe7779 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -654,12 +654,13 @@ def make_snowballs(
     nints, ngroups, nrows, ncols = gdq.shape
     low_threshold = jump_data.edge_size
     high_threshold = max(0, nrows - jump_data.edge_size)
+    high_threshold_col = max(0, ncols - jump_data.edge_size)
 
     # This routine will create a list of snowballs (ellipses) that have the
     # center of the saturation circle within the enclosing jump rectangle.
     snowballs = []
     for jump in jump_ellipses:
-        if near_edge(jump, low_threshold, high_threshold):
+        if near_edge(jump, low_threshold, high_threshold, high_threshold_col):
             # if the jump ellipse is near the edge, do not require saturation in the
             # center of the jump ellipse
             snowballs.append(jump)
@@ -727,7 +728,7 @@ def point_inside_ellipse(point, ellipse):
     return rad_cc <= 1
 
 
-def near_edge(jump, low_threshold, high_threshold):
+def near_edge(jump, low_threshold, high_threshold, high_threshold_col):
     """
     Test whether the center of a jump is close to the edge of the detector.
 
@@ -745,8 +746,10 @@ def near_edge(jump, low_threshold, high_threshold):
         required for snowball detection.
 
     high_threshold : int
-        High threshold distance from the edge of the detector where saturated cores are not
-        required for snowball detection.
+        Row above which saturated cores are not required for snowball detection.
+
+    high_threshold_col : int
+        Column above which saturated cores are not required for snowball detection.
 
     Returns
     -------
@@ -756,7 +759,7 @@ def near_edge(jump, low_threshold, high_threshold):
     return (
         jump[0][0] < low_threshold
         or jump[0][1] < low_threshold
-        or jump[0][0] > high_threshold
+        or jump[0][0] > high_threshold_col
         or jump[0][1] > high_threshold
     )
 
-- 
2.43.0


From c68737939b8b2c7a711ca520b5f2414c2d1c26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 19/46] fix: orientation of elongated jump clusters when
 looking for their saturated core

---
 src/stcal/jump/jump.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index ffe7779..013fa1f 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -660,18 +660,20 @@ def make_snowballs(
     # center of the saturation circle within the enclosing jump rectangle.
     snowballs = []
     for jump in jump_ellipses:
+        # the ellipses are oriented from the y axis, point_inside_ellipse counts from the x axis
+        jump_from_x = (jump[0], jump[1], 90.0 - jump[2])
         if near_edge(jump, low_threshold, high_threshold, high_threshold_col):
             # if the jump ellipse is near the edge, do not require saturation in the
             # center of the jump ellipse
             snowballs.append(jump)
         else:
             for sat in sat_ellipses:
-                if point_inside_ellipse(sat[0], jump) and jump not in snowballs:
+                if point_inside_ellipse(sat[0], jump_from_x) and jump not in snowballs:
                     snowballs.append(jump)
             if group < ngroups - 1:
                 # Is there saturation inside the jump in the next group?
                 for next_sat in next_sat_ellipses:
-                    if (point_inside_ellipse(next_sat[0], jump)) and jump not in snowballs:
+                    if point_inside_ellipse(next_sat[0], jump_from_x) and jump not in snowballs:
                         snowballs.append(jump)
 
     # extend the saturated ellipses that are larger than the min_sat_radius
-- 
2.43.0


From d4f04b702a974be287cf157372535a6aaac86a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 20/46] fix: shower search ignores unusable samples that carry
 other flags as well

---
 src/stcal/jump/jump.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 013fa1f..e14bed7 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -1205,13 +1205,7 @@ def nan_invalid_data(data, gdq, jump_data):
     data : ndarray
         NaN'd cience data 4D float
     """
-    jump_dnu_flag = jump_data.fl_jump + jump_data.fl_dnu
-    sat_dnu_flag = jump_data.fl_sat + jump_data.fl_dnu
-    data[gdq == jump_dnu_flag] = np.nan
-    data[gdq == sat_dnu_flag] = np.nan
-    data[gdq == jump_data.fl_sat] = np.nan
-    data[gdq == jump_data.fl_jump] = np.nan
-    data[gdq == jump_data.fl_dnu] = np.nan
+    data[gdq & (jump_data.fl_jump | jump_data.fl_sat | jump_data.fl_dnu) != 0] = np.nan
 
     return data
 
-- 
2.43.0


From a1e88f6cf17ae307e17edbe6d49e70fa9e335276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 21/46] fix: grow saturation in images smaller than the growth
 box

---
 src/stcal/saturation/saturation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stcal/saturation/saturation.py b/src/stcal/saturation/saturation.py
index bf9512f..6ca00df 100644
--- a/src/stcal/saturation/saturation.py
+++ b/src/stcal/saturation/saturation.py
@@ -298,6 +298,12 @@ def _adjacent_pixels(plane_gdq, saturated, n_pix_grow_sat=1, inplace=False):
     dilated = only_sat.copy()
     box_dim = (n_pix_grow_sat * 2) + 1
 
+    # The explicit loops below need an image at least as large as the box.
+    if min(only_sat.shape) < box_dim:
+        struct = np.ones((box_dim, box_dim), dtype=bool)
+        cgdq[ndimage.binary_dilation(only_sat, structure=struct)] |= saturated
+        return None if inplace else cgdq
+
     # The for loops below are equivalent to
     #
     # struct = np.ones((box_dim, box_dim)).astype(bool)
-- 
2.43.0


From a6edc03c1088218b1c0733ea8b2c8561b621cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 22/46] fix: no linearity correction for pixels that lack a
 usable inverse

---
 src/stcal/linearity/linearity.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stcal/linearity/linearity.py b/src/stcal/linearity/linearity.py
index 866982c..5231ad4 100644
--- a/src/stcal/linearity/linearity.py
+++ b/src/stcal/linearity/linearity.py
@@ -105,6 +105,12 @@ def linearity_correction(
 
     # Prepare coefficients
     nints = data.shape[0]
+    if read_level_correction:
+        # The read-level correction of a pixel needs both of its polynomials.
+        # If either is unusable the pixel gets no correction at all.
+        for coeffs in (lin_coeffs, ilin_coeffs):
+            unusable = np.isnan(coeffs).any(axis=0) | (coeffs[1] == 0)
+            lin_dq = np.bitwise_or(lin_dq, unusable * np.uint32(dqflags["NO_LIN_CORR"]))
     lin_coeffs, new_pdq = prepare_coefficients(lin_coeffs, lin_dq, pdq, dqflags)
     if read_level_correction:
         ilin_coeffs, new_pdq = prepare_coefficients(ilin_coeffs, lin_dq, new_pdq, dqflags)
-- 
2.43.0


From 627d69e9b638c2e2a053ccb4d966da4ccd267402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 23/46] fix: average all integrations of a dark, segments may
 need the later ones

---
 src/stcal/dark_current/dark_sub.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/stcal/dark_current/dark_sub.py b/src/stcal/dark_current/dark_sub.py
index d792ef0..13fcf42 100644
--- a/src/stcal/dark_current/dark_sub.py
+++ b/src/stcal/dark_current/dark_sub.py
@@ -281,20 +281,12 @@ def average_dark_frames_4d(dark_data, nints, ngroups, nframes, groupgap):
     # Do a direct copy of the 2-d DQ array into the new dark
     avg_dark.groupdq = dark_data.groupdq
 
-    # check if the number of integrations in dark reference file
-    # is less than science data.  If so then we only need to find the
-    # average for dint integrations, otherwise we find the average for
-    # nints.  (if science data only has 1 integration then there is no
-    # need to average the second integration of the dark refefence file)
-    num_ints = dint
-    if dint > nints:
-        num_ints = nints
-
-    # Loop over valid integrations in dark reference file
+    # Loop over all integrations in the dark reference file: a segment of an
+    # exposure may need later ones even if it has few integrations itself.
     # Loop over the groups of the input science data, copying or
     # averaging the dark frames to match the group structure
 
-    for it in range(num_ints):
+    for it in range(dint):
         start = 0
         for group in range(ngroups):
             end = start + nframes
-- 
2.43.0


From 83345130f30077f56c3d6064f8f91dca8583c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 24/46] fix: subtract the dark integration with the number of
 the science integration in segments

---
 src/stcal/dark_current/dark_sub.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/stcal/dark_current/dark_sub.py b/src/stcal/dark_current/dark_sub.py
index 13fcf42..d75008e 100644
--- a/src/stcal/dark_current/dark_sub.py
+++ b/src/stcal/dark_current/dark_sub.py
@@ -366,16 +366,11 @@ def subtract_dark(science_data, dark_data):
     # Loop over all integrations in input science data
     for i in range(science_data.data.shape[0]):
         if len(dark_data.data.shape) == 4:  # MIRI data
-            # Apply the first dark_nints-1 integrations from the dark ref file
-            # to the first few science integrations. There's an additional
-            # check of the starting integration number in case the science
-            # data are segmented.
-            #
-            # else
-            #
-            # For science integrations beyond the number of
-            # dark integrations, use the last dark integration
-            dark_sci = dark_data.data[i] if i < dark_nints and int_start == 1 else dark_data.data[-1]
+            # Use the dark integration with the same number as the science
+            # integration, counted from the start of the exposure as the
+            # science data may be segmented. Beyond the number of dark
+            # integrations, use the last dark integration.
+            dark_sci = dark_data.data[min(i + int_start, dark_nints) - 1]
         else:
             # Use single-integration dark data
             dark_sci = dark_data.data
-- 
2.43.0


From bd02435d02e897cb28ba65d25f3b939b2858fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 25/46] fix: accept all images in the on-disk median whatever
 the number of sections

---
 src/stcal/outlier_detection/median.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index cb3c40a..e3b13ea 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -334,8 +334,8 @@ class _OnDiskMedian:
         Split data into ``nsections`` sections and write/append each section to
         the corresponding temporary file.
         """
-        if self._n_adds >= self.nsections:
-            msg = f"Too many calls to add_image. Expected at most {self.nsections} input models."
+        if self._n_adds >= self._expected_nframes:
+            msg = f"Too many calls to add_image. Expected at most {self._expected_nframes} input models."
             raise IndexError(msg)
         self._validate_data(data)
         self._n_adds += 1
-- 
2.43.0


From 9323314be26e3dd3b8db80c9bfdd203f44367ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 26/46] fix: interpolated pixel map of images narrower than the
 spline order needs

---
 src/stcal/resample/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/resample/utils.py b/src/stcal/resample/utils.py
index d729335..37f5fe9 100644
--- a/src/stcal/resample/utils.py
+++ b/src/stcal/resample/utils.py
@@ -154,7 +154,8 @@ def calc_pixmap(wcs_from, wcs_to, shape=None, disable_bbox="to", stepsize=1, ord
     eff_height = ymax - ymin + 1
 
     try:
-        if stepsize == 1 or max(eff_width, eff_height) <= 10:
+        # Small images and those too narrow for a spline are computed in full
+        if stepsize == 1 or max(eff_width, eff_height) <= 10 or min(eff_width, eff_height) <= order:
             y, x = np.indices(shape, dtype=np.float64)
             x, y = wcs_to.world_to_pixel_values(*wcs_from.pixel_to_world_values(x, y))
         else:
-- 
2.43.0


From 2e7f9cbc5607147a70c3732b672ef7a3fd066166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 27/46] fix: interpolated pixel map covers the whole image when
 the input bounding box is disabled

---
 src/stcal/resample/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/resample/utils.py b/src/stcal/resample/utils.py
index 37f5fe9..704dc46 100644
--- a/src/stcal/resample/utils.py
+++ b/src/stcal/resample/utils.py
@@ -140,7 +140,7 @@ def calc_pixmap(wcs_from, wcs_to, shape=None, disable_bbox="to", stepsize=1, ord
         wcs_to.bounding_box = None
 
     # find integer boundaries of of the pixel grid to be computed:
-    if bbox_from is None:
+    if bbox_from is None or disable_bbox in ["from", "both"]:
         xmin, xmax = 0, shape[1] - 1
         ymin, ymax = 0, shape[0] - 1
     else:
-- 
2.43.0


From 0a010f07f03a3ab5a523714aaea9b60682c867aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 28/46] fix: zero weight for pixels with negative variance in
 inverse-variance weighting

---
 src/stcal/resample/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/resample/utils.py b/src/stcal/resample/utils.py
index 704dc46..568b1c0 100644
--- a/src/stcal/resample/utils.py
+++ b/src/stcal/resample/utils.py
@@ -634,7 +634,7 @@ def _get_inverse_variance(array, data_shape, array_name):
     if array is not None and array.shape == data_shape:
         with np.errstate(divide="ignore", invalid="ignore"):
             inv = 1.0 / array
-        inv[~np.isfinite(inv)] = 0  # zeros for bad pixels
+        inv[~np.isfinite(inv) | (inv < 0)] = 0  # zeros for bad pixels
     else:
         log.warning(
             f"'{array_name}' array not available. Setting drizzle weight map to 1",
-- 
2.43.0


From 8c2c699cc6f10a2a0c670ef58f134f35243a59d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 29/46] fix: equal variance weighting for images without read
 noise variance

---
 src/stcal/resample/resample.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 4315f6f..ed2abc4 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -1144,12 +1144,14 @@ class Resample:
 
         # Set the weight for the image from the weight type
         if self.weight_type.startswith("ivm"):
-            rn_var_info = self._variance_info.get("var_rnoise", {})
-            rn_var = rn_var_info.get("var", None)
-            if rn_var is not None:
+            if "var_rnoise" in self._variance_info and self._check_var_array(model, "var_rnoise"):
+                rn_var = self._variance_info["var_rnoise"]["var"]
                 mask = (rn_var > 0) & np.isfinite(rn_var)
                 weight = np.zeros(self.output_array_shape)
                 weight[mask] = np.reciprocal(rn_var[mask])
+            else:
+                # no read noise variance for this image: equal weighting
+                weight = np.ones(self.output_array_shape)
 
         elif self.weight_type == "exptime":
             t, _ = get_tmeasure(model)
-- 
2.43.0


From ffa20022696e2253693b8a16b9232b09de59e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 30/46] fix: forget the groups of a finalized output when
 resampling arrays are reset

---
 src/stcal/resample/resample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index ed2abc4..4adf4b9 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -646,6 +646,8 @@ class Resample:
         # set up an empty output model (don't allocate arrays at this time):
         if not hasattr(self, "_output_model") or self.is_finalized():
             self._output_model = self.create_output_model()
+            self._group_ids = []
+            self._n_res_models = 0
 
         if n_input_models is None:
             max_ctx_id = None
-- 
2.43.0


From a3155559fc4e0fefa8d73eae7a8b42dbab0bf8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 31/46] fix: errors from variances imply resampling the
 variances, as documented

---
 src/stcal/resample/resample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 4adf4b9..79b0bb3 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -268,7 +268,8 @@ class Resample:
         self._n_res_models = 0
 
         self._enable_ctx = enable_ctx
-        self._enable_var = enable_var
+        # errors from variances need the variances regardless of enable_var:
+        self._enable_var = enable_var or compute_err == "from_var"
         self._compute_err = compute_err
         self._propagate_dq = propagate_dq
 
-- 
2.43.0


From 91caf89b9f99cc231f2d51296d6faec421d4c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 32/46] fix: accept sky masks of ones and zeros, as documented

---
 src/stcal/skymatch/skyimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/skymatch/skyimage.py b/src/stcal/skymatch/skyimage.py
index d8f7ab9..c5eb26b 100644
--- a/src/stcal/skymatch/skyimage.py
+++ b/src/stcal/skymatch/skyimage.py
@@ -168,7 +168,7 @@ class SkyImage:
             raise ValueError("'mask' must have the same shape as 'image'.")
 
         self.image = image
-        self.mask = mask
+        self.mask = np.asarray(mask, dtype=bool)
 
         self.meta = meta
         self.sky_id = sky_id
-- 
2.43.0


From 7126c76d5fc634ade55f91bae09dd09cdd00739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 33/46] fix: global sky when some image has no valid sky

---
 src/stcal/skymatch/skymatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/skymatch/skymatch.py b/src/stcal/skymatch/skymatch.py
index 12881d9..fbe1441 100644
--- a/src/stcal/skymatch/skymatch.py
+++ b/src/stcal/skymatch/skymatch.py
@@ -305,7 +305,7 @@ drizzlepac/astrodrizzle.html>`_.
         for img in images:
             sky = img.calc_sky(delta=not subtract)[0]
             sky_deltas.append(sky)
-            if do_global and (minsky is None or sky < minsky):
+            if do_global and sky is not None and (minsky is None or sky < minsky):
                 minsky = sky
 
         if do_global:
-- 
2.43.0


From d52cf58f910e1f28a2d9a112335b39a29aec78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 34/46] fix: at least one worker when zero cores are requested

---
 src/stcal/multiprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/multiprocessing.py b/src/stcal/multiprocessing.py
index fc3b490..494a8fa 100644
--- a/src/stcal/multiprocessing.py
+++ b/src/stcal/multiprocessing.py
@@ -26,8 +26,8 @@ def compute_num_cores(max_cores, nchunks, max_available):
         The number of slices for multiprocessing.
     """
     number_slices = 1
-    if max_cores.isnumeric():
-        number_slices = int(max_cores)
+    if max_cores.isdecimal():
+        number_slices = int(max_cores) or 1
     elif max_cores.lower() == "none" or max_cores.lower() == "one":
         number_slices = 1
     elif max_cores == "quarter":
-- 
2.43.0


From 7094ff704801294224275ae55997cfb2779f1d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 35/46] fix: combine footprints with different numbers of
 vertices

---
 src/stcal/alignment/resample_utils.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 93c7a5e..8b24538 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -38,18 +38,16 @@ def combine_sregions(sregion_list, det2world, intersect_footprint=None):
     ValueError
         If there is no overlap between the input s_regions and the intersection footprint.
     """
-    footprints = np.array(
-        [
-            util.sregion_to_footprint(sregion) if isinstance(sregion, str) else sregion
-            for sregion in sregion_list
-        ]
-    )
+    footprints = [
+        util.sregion_to_footprint(sregion) if isinstance(sregion, str) else np.asarray(sregion)
+        for sregion in sregion_list
+    ]
 
     # convert from world to pixel coordinates
-    footprints_flat = footprints.reshape(-1, 2)
     world2det = det2world.inverse
-    x, y = world2det(footprints_flat[:, 0], footprints_flat[:, 1])
-    footprints_pixels = np.vstack([x, y]).T.reshape(footprints.shape)
+    footprints_pixels = [
+        np.vstack(world2det(footprint[:, 0], footprint[:, 1])).T for footprint in footprints
+    ]
 
     # combine footprints with Shapely
     combined_polygons = combine_footprints(footprints_pixels)
-- 
2.43.0


From 8ea15dbdf1cb5b9506156924b176c786eaeecdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 36/46] fix: clip combined footprints that the image splits or
 only touches

---
 src/stcal/alignment/resample_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 8b24538..f96cde4 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -163,8 +163,12 @@ def _intersect_with_bbox(polygons, bbox):
     for polygon in polygons:
         polygon = shapely.geometry.Polygon(polygon)
         intersection = shapely.intersection(polygon, intersect_polygon)
-        if not intersection.is_empty:
-            final_polygons.append(_convert_to_array(intersection))
+        # clipping may split a polygon or leave mere points, lines and slivers of contact
+        for part in getattr(intersection, "geoms", [intersection]):
+            if isinstance(part, shapely.geometry.Polygon) and not part.is_empty:
+                vertices = _convert_to_array(part)
+                if len(vertices) > 2:
+                    final_polygons.append(vertices)
     return final_polygons
 
 
-- 
2.43.0


From fb8940fd8d3484e81a2ee08ccca7746b28976cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 37/46] fix: combined footprints keep corners next to collinear
 points

---
 src/stcal/alignment/resample_utils.py | 33 ++++++++++++---------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index f96cde4..4ebf785 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -196,31 +196,26 @@ def _simplify_by_angle(coords, point_thresh=5e-2, angle_thresh=1e-6):
     np.ndarray
         2D array of shape (M, 2) representing the simplified polygon vertices.
     """
-    # Indices for previous, current, next points (wrap around)
-    n = len(coords)
-    idx_prev = np.arange(-1, n - 1)
-    idx_curr = np.arange(n)
-    idx_next = np.arange(1, n + 1) % n
-
-    p0 = coords[idx_prev]
-    p1 = coords[idx_curr]
-    p2 = coords[idx_next]
-
-    # Vectors
-    v1 = p1 - p0
-    v2 = p2 - p1
-
-    # Check closeness
-    # We only need to check closeness in one direction, to avoid removing both points
-    # if there's a duplicated pair. Wrapped indices ensure no bugs with first/last points.
-    close = (np.abs(v1[:, 0]) < point_thresh) & (np.abs(v1[:, 1]) < point_thresh)
+    # First drop the points close to the last point kept (with wrap-around), so that
+    # one point of every cluster is left, and only then look for collinear points.
+    keep = []
+    for idx in range(len(coords)):
+        if not keep or np.any(np.abs(coords[idx] - coords[keep[-1]]) >= point_thresh):
+            keep.append(idx)
+    while len(keep) > 1 and np.all(np.abs(coords[keep[-1]] - coords[keep[0]]) < point_thresh):
+        keep.pop()
+    coords = coords[keep]
+
+    # Vectors from the previous and to the next points (wrap around)
+    v1 = coords - np.roll(coords, 1, axis=0)
+    v2 = np.roll(coords, -1, axis=0) - coords
 
     # Slopes
     m1 = v1[:, 1] / (v1[:, 0] + 1e-12)
     m2 = v2[:, 1] / (v2[:, 0] + 1e-12)
     delta_theta = np.arctan((m2 - m1) / (1 + m1 * m2))
 
-    collinear = close | (np.abs(delta_theta) < angle_thresh)
+    collinear = np.abs(delta_theta) < angle_thresh
 
     # Keep only non-collinear points
     return coords[~collinear]
-- 
2.43.0


From 7d0e34332f7b3fb226900d3fa35fc766faa7bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 38/46] fix: combined WCS follows the transform given instead
 of ignoring it

---
 src/stcal/alignment/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stcal/alignment/util.py b/src/stcal/alignment/util.py
index 00d8a22..6da1b98 100644
--- a/src/stcal/alignment/util.py
+++ b/src/stcal/alignment/util.py
@@ -384,7 +384,7 @@ def _compute_bounding_box_with_offsets(
     if crpix is None:
         # shift the coordinates by domain_min so that all input footprints
         # will project to positive coordinates in the offsetted ref_wcs
-        offsets = tuple(ncrp - dmin for ncrp, dmin in zip(native_crpix, domain_min, strict=True))
+        offsets = tuple(-dmin for dmin in domain_min)
     else:
         # assume 0-based CRPIX and require that fiducial would map to the user
         # defined crpix value:
@@ -512,7 +512,8 @@ def wcs_from_sregions(
     projection = astmodels.Pix2Sky_TAN()
     cdelt = [pscale, pscale]
 
-    if transform is None:
+    user_transform = transform is not None
+    if not user_transform:
         transform = (
             astmodels.AffineTransformation2D(matrix=pc)
             | astmodels.Scale(pscale) & astmodels.Scale(pscale)
@@ -530,7 +531,10 @@ def wcs_from_sregions(
             offsets,
         )
 
-    fwcs = FITSImagingWCSTransform(projection, crpix=offsets, crval=crval, cdelt=cdelt, pc=pc)
+    if user_transform:
+        fwcs = astmodels.Shift(-offsets[0]) & astmodels.Shift(-offsets[1]) | transform
+    else:
+        fwcs = FITSImagingWCSTransform(projection, crpix=offsets, crval=crval, cdelt=cdelt, pc=pc)
     input_frame = ref_wcs.input_frame
     output_frame = ref_wcs.output_frame
 
-- 
2.43.0


From b46ecd8328964d8804acbf182d929db7b0647bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 39/46] fix: cone search of a part of the sky the catalog does
 not cover

---
 src/stcal/tweakreg/_s3_catalog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/tweakreg/_s3_catalog.py b/src/stcal/tweakreg/_s3_catalog.py
index d8539a3..482fb15 100644
--- a/src/stcal/tweakreg/_s3_catalog.py
+++ b/src/stcal/tweakreg/_s3_catalog.py
@@ -128,6 +128,9 @@ def _depth_29_ranges_to_filters(dr):
 
 
 def _read_table(paths, fs, filters, columns):
+    if not paths:
+        # no part of the catalog overlaps the cone
+        return Table({name: np.zeros(0) for name in columns or COL_NAMES}, masked=True)
     ds = pq.ParquetDataset(paths, filesystem=fs, filters=filters).read(columns=columns)
     table = Table({name: ds[name].to_numpy() for name in ds.column_names}, masked=True)
     # mask na values
-- 
2.43.0


From 6ceb5a555c1e3bbc0c1a40485ec2821de425b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 40/46] fix: no reference sources when at most zero are
 requested

---
 src/stcal/tweakreg/astrometric_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/tweakreg/astrometric_utils.py b/src/stcal/tweakreg/astrometric_utils.py
index 7b084d7..e9675a0 100644
--- a/src/stcal/tweakreg/astrometric_utils.py
+++ b/src/stcal/tweakreg/astrometric_utils.py
@@ -105,7 +105,7 @@ def create_astrometric_catalog(
     # Should 'num_sources' be a negative value, it will return the faintest
     # 'num_sources' sources.
     if num_sources is not None:
-        indx = -1 * num_sources
+        indx = -1 * num_sources if num_sources < 0 else max(len(ref_table) - num_sources, 0)
         ref_table = ref_table[:indx] if num_sources < 0 else ref_table[indx:]
 
     # Write out table to a file, if specified
-- 
2.43.0


From 9535765258e3fe83781864880cc1ea65c421da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 41/46] fix: resample spectral data without a pixel scale ratio

---
 src/stcal/resample/resample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 79b0bb3..5613e25 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -594,6 +594,7 @@ class Resample:
 
         if (
             photom_pixel_area
+            and self.pixel_scale_ratio is not None
             and "SPECTRAL" in wcs.output_frame.axes_type
             and is_flux_density(model["bunit_data"])
         ):
-- 
2.43.0


From 7194958029cd6c0180c824a6aa158e32f42e02a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 42/46] fix: drop redundant outline points until none is left

---
 src/stcal/alignment/resample_utils.py | 54 +++++++++++++++------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 4ebf785..79cd67d 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -196,26 +196,34 @@ def _simplify_by_angle(coords, point_thresh=5e-2, angle_thresh=1e-6):
     np.ndarray
         2D array of shape (M, 2) representing the simplified polygon vertices.
     """
-    # First drop the points close to the last point kept (with wrap-around), so that
-    # one point of every cluster is left, and only then look for collinear points.
-    keep = []
-    for idx in range(len(coords)):
-        if not keep or np.any(np.abs(coords[idx] - coords[keep[-1]]) >= point_thresh):
-            keep.append(idx)
-    while len(keep) > 1 and np.all(np.abs(coords[keep[-1]] - coords[keep[0]]) < point_thresh):
-        keep.pop()
-    coords = coords[keep]
-
-    # Vectors from the previous and to the next points (wrap around)
-    v1 = coords - np.roll(coords, 1, axis=0)
-    v2 = np.roll(coords, -1, axis=0) - coords
-
-    # Slopes
-    m1 = v1[:, 1] / (v1[:, 0] + 1e-12)
-    m2 = v2[:, 1] / (v2[:, 0] + 1e-12)
-    delta_theta = np.arctan((m2 - m1) / (1 + m1 * m2))
-
-    collinear = np.abs(delta_theta) < angle_thresh
-
-    # Keep only non-collinear points
-    return coords[~collinear]
+    # Dropping a point (the tip of a spike without width, for example) may make others
+    # redundant, so repeat until every point is needed.
+    npoints = len(coords) + 1
+    while 0 < len(coords) < npoints:
+        npoints = len(coords)
+
+        # First drop the points close to the last point kept (with wrap-around), so that
+        # one point of every cluster is left, and only then look for collinear points.
+        keep = []
+        for idx in range(len(coords)):
+            if not keep or np.any(np.abs(coords[idx] - coords[keep[-1]]) >= point_thresh):
+                keep.append(idx)
+        while len(keep) > 1 and np.all(np.abs(coords[keep[-1]] - coords[keep[0]]) < point_thresh):
+            keep.pop()
+        coords = coords[keep]
+
+        # Vectors from the previous and to the next points (wrap around)
+        v1 = coords - np.roll(coords, 1, axis=0)
+        v2 = np.roll(coords, -1, axis=0) - coords
+
+        # Slopes
+        m1 = v1[:, 1] / (v1[:, 0] + 1e-12)
+        m2 = v2[:, 1] / (v2[:, 0] + 1e-12)
+        delta_theta = np.arctan((m2 - m1) / (1 + m1 * m2))
+
+        collinear = np.abs(delta_theta) < angle_thresh
+
+        # Keep only non-collinear points
+        coords = coords[~collinear]
+
+    return coords
-- 
2.43.0


From 9a79ffe4dd17cd45c63c514bec3b05a4ee6ff992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 43/46] fix: leave the linearity reference coefficients as they
 are

---
 src/stcal/linearity/linearity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/linearity/linearity.py b/src/stcal/linearity/linearity.py
index 5231ad4..838765f 100644
--- a/src/stcal/linearity/linearity.py
+++ b/src/stcal/linearity/linearity.py
@@ -358,7 +358,8 @@ def prepare_coefficients(coeffs, lin_dq, pdq, dqflags):
     new_pdq = np.bitwise_or(pdq, lin_dq)
 
     # Check for NO_LIN_CORR flags in the DQ extension of the ref file
-    coeffs = correct_for_flag(coeffs, lin_dq, dqflags)
+    # (working on a copy: the reference coefficients may be used again)
+    coeffs = correct_for_flag(coeffs.copy(), lin_dq, dqflags)
 
     # Check for NaNs in the COEFFS extension of the ref file
     coeffs, new_pdq = correct_for_NaN(coeffs, new_pdq, dqflags)
-- 
2.43.0


From 3dceb32889e308485314ba14995df3263f9ab9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 44/46] fix: leave the read noise array of ramp fitting as it
 is

---
 src/stcal/ramp_fitting/ramp_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/ramp_fit.py b/src/stcal/ramp_fitting/ramp_fit.py
index a65dd3f..fde5991 100644
--- a/src/stcal/ramp_fitting/ramp_fit.py
+++ b/src/stcal/ramp_fitting/ramp_fit.py
@@ -263,6 +263,8 @@ def ramp_fit_data(ramp_data, save_opt, readnoise_2d, gain_2d, algorithm, weighti
         # Get readnoise array for calculation of variance of noiseless ramps, and
         #   gain array in case optimal weighting is to be done
         nframes = ramp_data.nframes
+        # (in a copy: the reference array may be used again for another exposure)
+        readnoise_2d = readnoise_2d.copy()
         readnoise_2d *= gain_2d / np.sqrt(2.0 * nframes)
 
         # Suppress one group ramps, if desired.
-- 
2.43.0


From 7e7bb27e3b3604dedce623eaf22a8ef6ef582c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 45/46] fix: blot reference images of any number type and byte
 order

---
 src/stcal/outlier_detection/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/outlier_detection/utils.py b/src/stcal/outlier_detection/utils.py
index 42e0552..09f33ec 100644
--- a/src/stcal/outlier_detection/utils.py
+++ b/src/stcal/outlier_detection/utils.py
@@ -286,7 +286,8 @@ def gwcs_blot(
     pixmap[np.isnan(pixmap)] = -1
 
     blot_image(
-        data=median_data,
+        # tblot reads single precision numbers in native byte order only
+        data=np.asarray(median_data, dtype=np.float32),
         pixmap=pixmap,
         out_img=outsci,
         fillval=fillval,
-- 
2.43.0


From 0c10a85489304fd08acd8eac83c11f6a8e01a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:31 +0000
Subject: [PATCH 46/46] fix: do not fit groups that LIKELY flags as saturated
 around large events

---
 src/stcal/ramp_fitting/likely_fit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index bde4353..97a3513 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -138,8 +138,9 @@ def likely_ramp_fit(ramp_data, readnoise_2d, gain_2d, jump_data=None):
                 gdq[None, :, :, :], ramp_data.flags_jump_det, ramp_data.flags_saturated, jump_data
             )
             log.info("Total snowballs = %i", total_snowballs)
-            # Unset differences to use if a jump was flagged in the expansion
-            alldiffs2use &= gdq[1:] & ramp_data.flags_jump_det == 0
+            # Unset differences to use if a jump or saturation was flagged in the expansion
+            expanded = ramp_data.flags_jump_det | ramp_data.flags_saturated
+            alldiffs2use &= gdq[1:] & expanded == 0
 
         # Propagate the flags applied during ramp fitting back into the input
         # group DQ so callers can recover which resultant each flag was set in.
-- 
2.43.0

