From 6baa311b6350014ad237f513a4917849b9cc88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 01/48] fix: slow-capture traps: keep the electrons released
 when the cloud reaches no traps

n_electrons_released_and_captured() returned 0 after having already emptied
the watermarks, so electrons released into an empty pixel, or into a cloud
within the notch, were lost from the image.
---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a3a3362..cc5b380 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1304,7 +1304,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
@@ -2062,7 +2062,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
-- 
2.43.0


From 49c67f64a2337467a344c0310fc930e9a7874230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 02/48] fix: never capture electrons from a cloud that has none

With first_electron_fill > 0 an empty or negative pixel still covers some
volume.  Instant-capture traps then computed 0/0 (giving NaN images) or drew
|n| electrons from a pixel holding -|n|, and slow-capture traps extrapolated
to fill fractions outside [0, 1].
---
 src/trap_managers.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index cc5b380..3b0dd7a 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -937,8 +937,8 @@ double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons)
     double cloud_fractional_volume =
         ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
 
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    // No capture, if the cloud reaches no traps or has no electrons to give
+    if (cloud_fractional_volume == 0.0 || n_free_electrons <= 0.0) return 0.0;
 
     // ========
     // Count the number of electrons that can be captured by each watermark
@@ -1375,7 +1375,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Check enough available electrons to capture, if more captured than released
     double enough;
     if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
+        enough = fmax(n_free_electrons, 0.0) / -n_released_and_captured;
     else
         enough = 1.0;
 
@@ -1776,8 +1776,8 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     double cloud_fractional_volume =
         ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
 
-    // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    // No capture, if the cloud reaches no traps or has no electrons to give
+    if (cloud_fractional_volume == 0.0 || n_free_electrons <= 0.0) return 0.0;
 
     // ========
     // Count the number of electrons that can be captured by each watermark
@@ -2138,7 +2138,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Check enough available electrons to capture, if more captured than released
     double enough;
     if (n_released_and_captured < 0.0)
-        enough = n_free_electrons / -n_released_and_captured;
+        enough = fmax(n_free_electrons, 0.0) / -n_released_and_captured;
     else
         enough = 1.0;
 
-- 
2.43.0


From 028ac0d9a9812a6fa40bb76baebfde89bfff8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 03/48] fix: clear the watermarks vacated by pruning

The slots above the last active watermark kept their old volumes and fills,
and the next cloud to rise above all watermarks took them for real trapped
electrons.
---
 src/trap_managers.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 3b0dd7a..6104ad5 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -448,6 +448,15 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
     }
     n_active_watermarks -= n_watermarks_pruned;
 
+    // Clear the vacated watermarks, since new watermarks at the top of the array
+    // are expected to start empty
+    for (int i_wmk = i_first_active_wmk + n_active_watermarks;
+         i_wmk < i_first_active_wmk + n_active_watermarks + n_watermarks_pruned;
+         i_wmk++) {
+        watermark_volumes[i_wmk] = zeroth_watermark;
+        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] = empty_watermark;
+    }
+
     // Count the total number of electrons in each watermark
     print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
     
-- 
2.43.0


From db5b03e5bc038e25d1dfde792f63c262ae9dbe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 04/48] fix: slow-capture traps: do not leave a negative volume
 above the top watermark

When released electrons raise the cloud above every watermark there is no
partially overwritten watermark to shrink.  The negative volume written beyond
the active range was picked up by the next cloud above all watermarks, making
the watermarks cover more than the pixel.
---
 src/trap_managers.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 6104ad5..4cd5b6c 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1342,9 +1342,10 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
             watermark_volumes[i_wmk_above_cloud] -
             (previous_total_volume - cloud_fractional_volume);
 
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
+        // Update fractional volume of the partially overwritten watermark, if any
+        if (i_wmk_above_cloud < i_first_active_wmk + n_active_watermarks)
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
     }
 
     // Release and capture electrons in each watermark below the cloud
@@ -2100,9 +2101,10 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
             watermark_volumes[i_wmk_above_cloud] -
             (previous_total_volume - cloud_fractional_volume);
 
-        // Update fractional volume of the partially overwritten watermark
-        watermark_volumes[i_wmk_above_cloud] =
-            previous_total_volume - cloud_fractional_volume;
+        // Update fractional volume of the partially overwritten watermark, if any
+        if (i_wmk_above_cloud < i_first_active_wmk + n_active_watermarks)
+            watermark_volumes[i_wmk_above_cloud] =
+                previous_total_volume - cloud_fractional_volume;
     }
 
     // Release and capture electrons in each watermark below the cloud
-- 
2.43.0


From 70c77a4d3f758a8654e7362fc5e4c0474e8e72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 05/48] fix: instant-capture traps: fill a new lowest watermark
 from the region it divides

When there was spare room below the first active watermark, the not-enough
capture of a cloud below all watermarks started from whatever fills an earlier,
superseded watermark had left in that slot, instead of those of the watermark
being divided.
---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 4cd5b6c..115c375 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -841,7 +841,7 @@ void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities; // is this wrong? the new watermark level should be created full
 
@@ -1700,7 +1700,7 @@ void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities;
 
-- 
2.43.0


From 6c94f9049540d62b00e372ee3fd4c4b4d597ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 06/48] fix: surface traps: no traps are exposed in a watermark
 of zero volume

fraction_traps_exposed_per_fractional_volume() divided by the zero volume,
turning the image into NaN when two clouds reached exactly the same height.
---
 src/traps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index d045d18..2602d77 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -117,6 +117,9 @@ double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
         return 1.0;
     else if (fractional_volume_high <= fractional_volume_none_exposed)
         return 0.0;
+    // Empty range, e.g. a watermark of zero volume
+    else if (fractional_volume_low == fractional_volume_high)
+        return 0.0;
 
     double fraction;
     // Integrate f(v) from v_l to v_h
-- 
2.43.0


From e505672082ccea168a426f326db80bf64b18152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 07/48] fix: slow-capture traps: the cloud always reaches the
 watermark made at its own height

After adding a watermark at the cloud height, its index was looked up again by
comparing a sum of volumes with the cloud volume.  A last-digit rounding error
in the sum left the new watermark out of the capture, so that, depending on the
value of the pixel, no electrons were captured between the previous and the
new cloud height.
---
 src/trap_managers.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 115c375..5f966ca 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1220,6 +1220,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud = 1;
         }
 
         // Cloud above all current watermarks
@@ -1235,6 +1236,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -1307,7 +1309,6 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     n_free_electrons += n_released;
     cloud_fractional_volume =
         ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
 
     // ========
     // Capture and release electrons below the cloud
@@ -1317,6 +1318,8 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
         // Original total volume of the watermark
         double previous_total_volume = 0.0;
         for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
@@ -1974,6 +1977,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud = 1;
         }
 
         // Cloud above all current watermarks
@@ -1989,6 +1993,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -2066,7 +2071,6 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     n_free_electrons += n_released;
     cloud_fractional_volume =
         ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
 
     // ========
     // Capture and release electrons below the cloud
@@ -2076,6 +2080,8 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+
         // Original total volume of the watermark
         double previous_total_volume = 0.0;
         for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-- 
2.43.0


From daf52f4075db3ea0d8ce4adb9e77448a13546e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 08/48] fix: pruning: keep a watermark whose electrons do not
 fit below

When the watermark below was less full than the pruned one, its enlarged volume
could swallow the watermark above, which was left with a negative volume or
overfull, changing the number of trapped electrons.
---
 src/trap_managers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 5f966ca..359afaf 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -362,6 +362,11 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
             double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
                 n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
 
+            // Keep this watermark if its electrons would not fit in its own volume at
+            // the fill fractions of the watermark below (so that no volume becomes
+            // negative and no fill fraction exceeds 1)
+            if (delta_volume_below > watermark_volumes[i_wmk_prime]) continue;
+
 /*            // Temp report
             std::valarray<double> fill_fractions_in_down_wmk =
                 watermark_fills[std::slice((i_wmk_prime-1) * n_traps, n_traps, 1)];
-- 
2.43.0


From 51db1e9b90caed374b4ffe07978e9843c18607ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 09/48] fix: continuum traps: integrate over the log of the
 release timescale

The log-normal distribution was integrated over tau from 0 to mu + 100 sigma,
although sigma is the (dimensionless) spread of log(tau).  For long release
timescales half of the traps were left out (e.g. mu = 1000, sigma = 0.2 gave
fill fractions starting from 0.48 instead of 1), for short ones the peak could
be missed entirely, and the result depended on the units of time.
---
 src/traps.cpp | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 2602d77..4072789 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -216,9 +216,9 @@ TrapInstantCaptureContinuum::TrapInstantCaptureContinuum(
     distribution with trap release timescales:
         f = int_0^inf n(tau) exp(-t_e/tau) dtau
 
-    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
-    close approximation.
+    The distribution is log-normal, so integrate over log(tau). Integrating to
+    infinity can fail for very small mu and/or sigma, so instead integrate over
+    log(mu) +/- 20 sigma for a more reliable and very close approximation.
 
     (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
 
@@ -243,14 +243,15 @@ struct TrICCo_ff_from_te_params {
     double sigma;
 };
 
-double TrICCo_ff_from_te_integrand(double tau, void* params) {
+double TrICCo_ff_from_te_integrand(double log_tau, void* params) {
     struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
+    double tau = exp(log_tau);
 
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
 
-    // To integrate: n(tau) * fill_frac(tau) dtau
+    // To integrate: n(tau) * fill_frac(tau) dlog(tau)
     return n * exp(-p->time_elapsed / tau);
 }
 
@@ -266,8 +267,8 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 20 * release_timescale_sigma;
+    const double max = log(release_timescale) + 20 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -574,14 +575,15 @@ struct TrSCCo_ff_from_te_params {
     double sigma;
 };
 
-double TrSCCo_ff_from_te_integrand(double tau, void* params) {
+double TrSCCo_ff_from_te_integrand(double log_tau, void* params) {
     struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
+    double tau = exp(log_tau);
 
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
 
-    // To integrate: n(tau) * fill_frac(tau) dtau
+    // To integrate: n(tau) * fill_frac(tau) dlog(tau)
     return n * exp(-p->time_elapsed / tau);
 }
 
@@ -597,8 +599,8 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 20 * release_timescale_sigma;
+    const double max = log(release_timescale) + 20 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -792,9 +794,9 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
         f(tau) = f_0(tau) f_f(tau) + (1 - f_0(tau)) f_e(tau)
         f = int_0^inf n(tau) f(tau) dtau
 
-    Integrating from 0 to infinity can fail for very small mu and/or sigma, so
-    instead integrate from 0 to (mu + 100 sigma) for a more reliable and very
-    close approximation.
+    The distribution is log-normal, so integrate over log(tau). Integrating to
+    infinity can fail for very small mu and/or sigma, so instead integrate over
+    log(mu) +/- 20 sigma for a more reliable and very close approximation.
 
     (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
 
@@ -825,12 +827,13 @@ struct TrSCCo_ff_after_sc_params {
     double dwell_time;
 };
 
-double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
+double TrSCCo_ff_after_sc_integrand(double log_tau, void* params) {
     struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
+    double tau = exp(log_tau);
 
     // Distribution density
-    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (tau * p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
+               (p->sigma * sqrt(2.0 * M_PI));
 
     // Rates and fill probabilities
     double release_rate = 1.0 / tau;
@@ -848,7 +851,7 @@ double TrSCCo_ff_after_sc_integrand(double tau, void* params) {
     else
         f_0 = exp(-p->time_elapsed * release_rate);
 
-    // To integrate: n(tau) * new_fill(tau) dtau
+    // To integrate: n(tau) * new_fill(tau) dlog(tau)
     return n * (f_0 * fill_probability_from_full +
                 (1.0 - f_0) * fill_probability_from_empty);
 }
@@ -857,8 +860,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
     // Prep the integration
     double result, error;
-    const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double min = log(release_timescale) - 20 * release_timescale_sigma;
+    const double max = log(release_timescale) + 20 * release_timescale_sigma;
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
-- 
2.43.0


From 3118f47a8af5ad2f094f014d4426cd3dd423d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 10/48] fix: slow-capture continuum traps: tabulate the capture
 fraction of full traps

fill_fraction_after_slow_capture_table(0) took the log of zero and converted
infinity to an integer index, returning NaN for completely full traps.
---
 include/traps.hpp | 1 +
 src/traps.cpp     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/traps.hpp b/include/traps.hpp
index dbe1089..4b52fcf 100644
--- a/include/traps.hpp
+++ b/include/traps.hpp
@@ -103,6 +103,7 @@ class TrapSlowCaptureContinuum : public TrapInstantCapture {
     double fill_capture_min;
     double fill_capture_max;
     double fill_capture_long_time;
+    double fill_capture_zero_time;
 
     void prep_fill_fraction_after_slow_capture_tables(
         double dwell_time, double time_min, double time_max, int n_intp);
diff --git a/src/traps.cpp b/src/traps.cpp
index 4072789..5da8296 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -914,6 +914,9 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
 
     fill_capture_long_time : double
         The should-be-converged fill fraction from a very long elapsed time.
+
+    fill_capture_zero_time : double
+        The fill fraction for initially full traps.
 */
 void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
     double dwell_time, double time_min, double time_max, int n_intp) {
@@ -932,6 +935,7 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
         fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
     fill_capture_long_time =
         fill_fraction_after_slow_capture(time_max * 100, dwell_time, workspace);
+    fill_capture_zero_time = fill_fraction_after_slow_capture(0.0, dwell_time, workspace);
     d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
     double time_i;
 
@@ -963,6 +967,9 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
     // Very long elapsed time, or unset watermark
     if (time_elapsed >= std::numeric_limits<double>::max())
         return fill_capture_long_time;
+    // Completely full
+    else if (time_elapsed == 0.0)
+        return fill_capture_zero_time;
     else if (time_elapsed == -1.0)
         return 0.0;
 
-- 
2.43.0


From cb4f4797d2c07fe75157a3c9ae6963113afd7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 11/48] fix: clocking: do not access pixels beyond the edges of
 the image

With several phases the nearest potential well can belong to the pixel before
the first row or after the last one, which were read and written out of bounds.
---
 src/cti.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index 84931b4..9078ea3 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -362,6 +362,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_read = row_index +
                                        roe_step_phase->capture_from_which_pixels[i];
 
+                            // No pixels beyond the edges of the image
+                            if (row_read >= n_rows) continue;
+
                             n_free_electrons += image[row_read][column_index];
                         }
 
@@ -412,6 +415,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_write =
                                 row_index + roe_step_phase->release_to_which_pixels[i];
 
+                            // No pixels beyond the edges of the image
+                            if (row_write >= n_rows) continue;
+
                             image[row_write][column_index] +=
                                 n_electrons_released_and_captured * express_multiplier *
                                 roe_step_phase->release_fraction_to_pixels[i];
-- 
2.43.0


From 84b7f17a82c653c41cc0da85c76062dd2510d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 12/48] fix: only print the instant-capture watermarks when
 there are such traps

At verbosity 2 a model without instant-capture traps indexed an empty array.
---
 src/cti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 9078ea3..8db34d1 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -403,7 +403,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             2, "n_electrons_released_and_captured  %g \n",
                             n_electrons_released_and_captured);
 
-                        print_v(
+                        if (trap_manager_manager.n_traps_ic > 0) print_v(
                            2, "n_trapped_electrons_from_watermarks  %g \n",
                             trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
 
-- 
2.43.0


From dc50e36b990ee34e9bbd821a92e37d7fdfcd1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 13/48] fix: clock columns in order when traps keep their
 states between them

The columns were shared out among threads regardless, each thread with its own
traps, so the trails that extend onto the next column depended on the threads.
---
 src/cti.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 8db34d1..ae845cc 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -311,7 +311,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     //print_array_2D((int)roe->store_trap_states_matrix, n_active_rows);
     // Loop over:
     //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
-    #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
+    // (Columns must be done in order if the traps keep their states between them)
+    #pragma omp parallel for if (roe->empty_traps_between_columns) \
+                             private(column_index, row_index, row_read, row_write, n_free_electrons, \
 				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
                              firstprivate(trap_manager_manager)
     for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
-- 
2.43.0


From 5a93794968dd63e9df2337849d0570b13e2155e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 14/48] fix: trap pumping: make enough watermarks for every
 pump

The trap states are kept from pump to pump, but space was only set aside for the
watermarks of a single one, so that many pumps ran off the end of the arrays.
---
 src/cti.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index ae845cc..f0e56ed 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -114,6 +114,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
         // need to be tracked if the traps are never reset
         max_n_transfers *= n_columns;
     }
+    if (roe->type == roe_type_trap_pumping) {
+        // Account for the repeated capture/release events in the same pixel
+        max_n_transfers *= roe->n_pumps;
+    }
 
     // Set empty arrays for nullptr trap lists
     std::valarray<TrapInstantCapture> no_traps_ic = {};
-- 
2.43.0


From 4e678825963727aea07315d73ef55438e8493f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 15/48] fix: ROE: keep a copy of the dwell times and assign the
 number of pumps

The dwell times were a reference, so assigning one ROE to another overwrote the
array that the latter was made from (e.g. the default shared by all others).
n_pumps was left uninitialised and not assigned.
---
 include/roe.hpp | 4 ++--
 src/roe.cpp     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 3afc424..6d22582 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -44,7 +44,7 @@ class ROE {
 
     ROE& operator=(const ROE& roe);
 
-    std::valarray<double>& dwell_times;
+    std::valarray<double> dwell_times;
     int prescan_offset;
     int overscan_start;
     bool empty_traps_between_columns;
@@ -60,7 +60,7 @@ class ROE {
     int n_steps;
     int n_phases;
     int n_express_passes;
-    int n_pumps;
+    int n_pumps = 1;
 
     virtual void set_express_matrix_from_rows_and_express(
         int n_rows, int express = 0, int window_offset = 0);
diff --git a/src/roe.cpp b/src/roe.cpp
index b9cc7bd..3ffc8fc 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -174,6 +174,7 @@ ROE& ROE::operator=(const ROE& roe) {
     type = roe.type;
     n_steps = roe.n_steps;
     n_phases = roe.n_phases;
+    n_pumps = roe.n_pumps;
     return *this;
 }
 
-- 
2.43.0


From 95aad7e9487d741193c1b61060ec38ada62277ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 16/48] fix: overscan: only remove the transfers of pixels in
 the image

An overscan that covers the whole of an offset image carried on into other rows
of the express matrix, and rounding could leave an imperceptible remainder to
remove after the last pass, which threw an exception.
---
 src/roe.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 3ffc8fc..08a3f14 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -347,13 +347,12 @@ void ROE::set_express_matrix_from_rows_and_express(
     //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
     if (overscan_in_image > 0) {
         int n_express_rows = express_matrix.size() / n_rows;
-        for (int i_row = 0; (i_row < overscan_in_image); i_row++) {
+        for (int i_row = 0; (i_row < std::min(overscan_in_image, n_rows)); i_row++) {
             double to_remove = overscan_in_image - i_row;
             double removed = 0;
             int i_express = 0;
-            while (removed < to_remove) {
+            while ((removed < to_remove) && (i_express < n_express_rows)) {
                 int index = (n_express_rows - i_express) * n_rows - i_row - 1;
-                if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
                 //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
                 removed += express_matrix[index];
                 express_matrix[index] = fmax(removed - to_remove, 0);
-- 
2.43.0


From 9e782903f016edd76f954f9992e1eb5650f21b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 17/48] fix: charge injection: do not divide by zero passes

With no pixels before the overscan there are no transfers, hence no passes.
---
 src/roe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 08a3f14..3a66c4d 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -669,7 +669,7 @@ void ROEChargeInjection::set_express_matrix_from_rows_and_express(
     std::valarray<double> tmp_express_matrix(max_multiplier, express * n_rows);
 
     // Adjust integer multipliers to correct the total number of transfers
-    if ((use_integer_express_matrix) && (n_transfers % express != 0)) {
+    if ((use_integer_express_matrix) && (express > 0) && (n_transfers % express != 0)) {
         double current_n_transfers;
         double reduced_multiplier;
 
-- 
2.43.0


From c1568c1155ac3d753e05ac5762af3beca2d12778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 18/48] fix: gettimelapsed: borrow a second correctly

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index cd4881d..dff820f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -305,7 +305,7 @@ double gettimelapsed(struct timeval start, struct timeval end) {
 
     if (microseconds < 0.0) {
         seconds -= 1.0;
-        microseconds = 1e6 - microseconds;
+        microseconds += 1e6;
     }
 
     microseconds /= 1e6;
-- 
2.43.0


From 50d094ab90c5b7921bc487622c6b75fd86d18384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 19/48] fix: trap pumping: keep every non-zero integer express
 multiplier

With integer multipliers and separate first transfers, the number of non-zero
multipliers was guessed from n_pumps % express, which lost the final one (e.g.
9 pumps, express 4) or read past the end of the array (e.g. 12 pumps, express 8).
---
 src/roe.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 3a66c4d..9a662b6 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -888,16 +888,10 @@ void ROETrapPumping::set_express_matrix_from_rows_and_express(
 
         n_express_passes = express + 1;
         tmp_col.resize(n_express_passes);
-        // Set the non-zero elements, which won't include the final entry for
-        // mismatched integer multipliers
-        if ((use_integer_express_matrix) && (n_pumps % express != 0)) {
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_express_passes - 1; i++) tmp_col[i] = tmp_col_2[i];
-
-            // Put back the final zero
-            tmp_col[n_express_passes - 1] = 0.0;
-        } else
-            tmp_col = tmp_col_2;
+        // Set the non-zero elements, which might not include the final entries
+        // for mismatched integer multipliers, leaving zeros there
+        // (Using slice here doesn't compile on mac for some odd reason...)
+        for (int i = 0; i < (int)tmp_col_2.size(); i++) tmp_col[i] = tmp_col_2[i];
     }
 
     express_matrix.resize(n_rows * n_express_passes);
-- 
2.43.0


From fc82e2ff3f98acb40d2fba931438277ddd33a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 20/48] fix: continuum traps: allow species with no traps

The fill fraction of a species of zero density (or in a phase with none of the
traps) was 0/0, which turned the whole image into NaNs.
---
 src/trap_managers.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 359afaf..cdfbf5a 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1522,6 +1522,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_c
     double time_initial;
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // No traps to fill
+        if (trap_densities[i_trap] == 0.0) continue;
+
         // Initial fill and conversion to elapsed time
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -1557,6 +1560,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released() {
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps to fill
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -1944,6 +1950,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_clou
     double time_initial;
     double fill_final;
     for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+        // No traps to fill
+        if (trap_densities[i_trap] == 0.0) continue;
+
         // Initial fill and conversion to elapsed time
         fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2052,6 +2061,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps to fill
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2131,6 +2143,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps to fill
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
@@ -2174,6 +2189,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
         // Each trap species
         for (int i_trap = 0; i_trap < n_traps; i_trap++) {
+            // No traps to fill
+            if (trap_densities[i_trap] == 0.0) continue;
+
             // Initial fill and conversion to elapsed time
             fill_initial = watermark_fills[i_wmk * n_traps + i_trap];
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
-- 
2.43.0


From 27ae3805cfae8cdad8c664264f1aa45385d9f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 21/48] fix: continuum traps: free the GSL workspaces and root
 solvers

Every model of continuum traps leaked them, several per species, phase and
iteration.
---
 src/traps.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index 5da8296..75e6cad 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -273,6 +273,7 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
+    const bool own_workspace = !workspace;
     if (!workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
@@ -286,6 +287,8 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
 
+    if (own_workspace) gsl_integration_workspace_free(workspace);
+
     if (status) error("Integration failed, status %d", status);
 
     return result;
@@ -344,6 +347,7 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
         return 0.0;
 
     // Prep for the integration
+    const bool own_workspace = !workspace;
     if (!workspace) {
         const int limit = 100;
         workspace = gsl_integration_workspace_alloc(limit);
@@ -380,6 +384,9 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
         status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
     } while (status == GSL_CONTINUE && iter < max_iter);
 
+    gsl_root_fsolver_free(s);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
+
     return root;
 }
 
@@ -434,6 +441,8 @@ void TrapInstantCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
         time_i = exp(log(time_max) - i * d_log_time);
         fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
@@ -605,6 +614,7 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
+    const bool own_workspace = !workspace;
     if (!workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
@@ -618,6 +628,8 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
 
+    if (own_workspace) gsl_integration_workspace_free(workspace);
+
     if (status) error("Integration failed, status %d", status);
 
     return result;
@@ -651,6 +663,7 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
         return 0.0;
 
     // Prep for the integration
+    const bool own_workspace = !workspace;
     if (!workspace) {
         const int limit = 100;
         workspace = gsl_integration_workspace_alloc(limit);
@@ -687,6 +700,9 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
         status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
     } while (status == GSL_CONTINUE && iter < max_iter);
 
+    gsl_root_fsolver_free(s);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
+
     return root;
 }
 
@@ -715,6 +731,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
         time_i = exp(log(time_max) - i * d_log_time);
         fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
@@ -866,6 +884,7 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
+    const bool own_workspace = !workspace;
     if (!workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
@@ -880,6 +899,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
 
+    if (own_workspace) gsl_integration_workspace_free(workspace);
+
     if (status) error("Integration failed, status %d", status);
 
     return result;
@@ -945,6 +966,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
         fill_fraction_capture_table[i] =
             fill_fraction_after_slow_capture(time_i, dwell_time, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
-- 
2.43.0


From 795d90384764a18563fac6680ebad8bf44e12688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 22/48] fix: make enough watermarks for the transfers through
 the prescan

The first pixel meets the traps once per express pass, including those for the
prescan, without the traps emptying in between, but space was only set aside
for the watermarks of the pixels in the image.
---
 src/cti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index f0e56ed..90f2ff6 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -89,7 +89,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     // Number of active rows and columns
     unsigned int n_active_rows = row_stop - row_start;
     unsigned int n_active_columns = column_stop - column_start;
-    unsigned int max_n_transfers = n_active_rows + row_offset;
+    unsigned int max_n_transfers = n_active_rows + row_offset + roe->prescan_offset;
     print_v(
         1, "%d column(s) [%d to %d], %d row(s) [%d to %d] \n", n_active_columns,
         column_start, column_stop, n_active_rows, row_start, row_stop);
-- 
2.43.0


From ca7ec5c0a358195ae3967f2d4a4848836f7e38ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 23/48] fix: add_cti: call the pixel bounce method by its name

add_cti() and remove_cti() with a pixel_bounce_list raised an AttributeError.
---
 python/arcticpy/cti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 92c0488..3056a40 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -310,7 +310,7 @@ def add_cti(
         bias_total = np.zeros(image.shape)
         
         for pixel_bounce in pixel_bounce_list:
-            bias = pixel_bounce.bias_from(
+            bias = pixel_bounce.perturb_bias(
                 image_trailed,
                 parallel_window_start=parallel_window_start,
                 parallel_window_stop=parallel_window_stop,
-- 
2.43.0


From 2f9821727fc9d839b747a6e7c3059f18143fa676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 24/48] fix: pixel bounce: row-at-a-time version and natural
 frequency

add_pixel_bounce_slow() failed for more than one row, carried the bias of one
row into the next and overwrote its input; omega0 raised a NameError.
---
 python/arcticpy/pixel_bounce.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 78462ef..496f273 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -52,7 +52,7 @@ class PixelBounce:
 
     @property
     def omega0(self):
-        return np.sqrt(omega**2 + gamma**2)  # natural frequency of oscillator
+        return np.sqrt(self.omega**2 + self.gamma**2)  # natural frequency of oscillator
 
     def perturb_bias(
             self,
@@ -242,12 +242,13 @@ class PixelBounce:
         n_rows_in_image, n_columns_in_image = image.shape
         import copy
 
-        for row_index in range(n_rows_in_image):
-            print("Bouncing, one row at a time")
+        image_bounced = np.copy(image).astype(np.double)
 
+        for row_index in range(n_rows_in_image):
             # Initialise bias offset voltage, which should settle during prescan
             # of each row
             bias = np.zeros((1, n_columns_in_image))
+            biasm1 = 0.0
 
             # Each pixel
             # for row_index in window_row_range:
@@ -255,7 +256,7 @@ class PixelBounce:
                 # Store previous values of bias, so difference equation can
                 # compute rates of change
                 biasm2 = copy.copy(biasm1)
-                biasm1 = bias[row_index, column_index - 1]
+                biasm1 = bias[0, column_index - 1]
 
                 # What electronic impulse is being experienced?
                 delta = (
@@ -271,9 +272,9 @@ class PixelBounce:
                 # DHO difference equation, Cieslinski & Ratkiewicz (2005) eqn (43)
                 bias[0, column_index] = coeffA * biasm1 - coeffB * biasm2
 
-            image[row_index : row_index + 1, :] -= bias
+            image_bounced[row_index : row_index + 1, :] -= bias
 
-        return image
+        return image_bounced
 
 
 """
-- 
2.43.0


From 36d592feb8c0966b8976aa67dbc974fe5693fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 25/48] fix: ROEChargeInjection.from_normal_roe: use the
 attributes of the ROE

---
 python/arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/roe.py b/python/arcticpy/roe.py
index 130ba6a..7b5a629 100644
--- a/python/arcticpy/roe.py
+++ b/python/arcticpy/roe.py
@@ -85,7 +85,7 @@ class ROEChargeInjection(ROE):
         return ROEChargeInjection(
             dwell_times=roe.dwell_times,
             prescan_offset=roe.prescan_offset + n_pixels_in_image,
-            prescan_length=prescan_length,
+            prescan_length=roe.prescan_length,
             overscan_start=roe.overscan_start,
             empty_traps_between_columns=roe.empty_traps_between_columns,
             force_release_away_from_readout=roe.force_release_away_from_readout,
@@ -94,7 +94,7 @@ class ROEChargeInjection(ROE):
             pixel_bounce_kv=roe.pixel_bounce_kv,
             pixel_bounce_omega=roe.pixel_bounce_omega,
             pixel_bounce_gamma=roe.pixel_bounce_gamma,
-            read_noise=read_noise
+            read_noise=roe.read_noise
         )
 
 
-- 
2.43.0


From 7f69c0f92d8fc0cf9b72ee7bf18584cb42e2fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 26/48] fix: add_cti: accept an empty list of traps

It raised an IndexError from taking the address of an empty array.
---
 python/arcticpy/cti.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 3056a40..046cc13 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -136,7 +136,7 @@ def add_cti(
     # Extract inputs and/or set dummy variables to pass to the wrapper
     # ========
     # Parallel
-    if parallel_traps is not None:
+    if parallel_traps is not None and len(parallel_traps) > 0:
         (
             parallel_trap_densities,
             parallel_trap_release_timescales,
@@ -164,7 +164,7 @@ def add_cti(
     parallel_prune_n_es = np.array([parallel_prune_n_electrons], dtype=np.double)
 
     # Serial
-    if serial_traps is not None:
+    if serial_traps is not None and len(serial_traps) > 0:
         (
             serial_trap_densities,
             serial_trap_release_timescales,
-- 
2.43.0


From a1b3a7ddca7a1817ede66d2d79e396af90da694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 27/48] fix: read noise model: make sure that the images are
 contiguous

An image in e.g. Fortran order was read as if it was in C order.
---
 python/arcticpy/wrapper.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/arcticpy/wrapper.pyx b/python/arcticpy/wrapper.pyx
index 2e131c8..4bee559 100644
--- a/python/arcticpy/wrapper.pyx
+++ b/python/arcticpy/wrapper.pyx
@@ -8,6 +8,8 @@ cdef extern from "read_noise.hpp":
     void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output);
 
 def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
+    arr1 = check_contiguous(arr1)
+    arr2 = check_contiguous(arr2)
     cdef int rows = arr1.shape[0]
     cdef int cols = arr1.shape[1]
     cdef np.ndarray[np.float64_t, ndim=2] out = np.zeros((rows, cols), dtype=np.float64)
-- 
2.43.0


From d24c0847a859dbd150bd18ef1fd023f912fec649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 28/48] fix: read noise: print nothing at verbosity zero

The compiled model also greeted the world in every iteration, whatever the
verbosity.
---
 python/arcticpy/cti.py        |  6 +++---
 python/arcticpy/read_noise.py | 19 +++++++++++--------
 src/read_noise.cpp            |  4 +---
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 046cc13..9a465bb 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -461,9 +461,9 @@ def remove_cti(
     if remove_read_noise > 0:
         sigma_readnoise = 1. * remove_read_noise
         read_noise = ReadNoise(sigma_readnoise=sigma_readnoise)
-        print(read_noise.sigmaRN)
-        image_remove_cti,image_read_noise = read_noise.generate_SR_frames_from_image(image_remove_cti)
-        print("\nMean and rms of modelled read noise:",np.mean(image_read_noise),np.std(image_read_noise))        
+        if verbosity >= 1: print(read_noise.sigmaRN)
+        image_remove_cti,image_read_noise = read_noise.generate_SR_frames_from_image(image_remove_cti, verbosity=verbosity)
+        if verbosity >= 1: print("\nMean and rms of modelled read noise:",np.mean(image_read_noise),np.std(image_read_noise))        
 
     # =======================
     # Estimate the image with removed CTI more accurately each iteration
diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 5a3596d..3844152 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -173,7 +173,7 @@ class ReadNoise:
 
     ###############
     ###############
-    def generate_SR_frames_from_image(self, image, sr_fraction=None):
+    def generate_SR_frames_from_image(self, image, sr_fraction=None, verbosity=1):
         """
         Function for generating a model of read noise in an image, using the level specified in the
         initial ReadNoise call. Once modeled, the read noise component is separated from the data,
@@ -191,6 +191,8 @@ class ReadNoise:
             frame. Default is set to the optimised value measured in <optimise_SR_frac>, or 100%
             if <optimise_SR_frac> has not been previously run.
 
+        verbosity: int
+            0 for no printing.
 
         """
         ampReadNoise = self.sigmaRN
@@ -213,7 +215,7 @@ class ReadNoise:
         nrmsGlobal = 0.0
 
         smoother = 1
-        print("iter", "model_rms", "target_rms", "residual")
+        if verbosity >= 1: print("iter", "model_rms", "target_rms", "residual")
         for s in range(self.n_iter):
             oldchk = ampReadNoise - rmsGlobal
             imageAdj = self._determine_noise_model(imageIn, imageOut)
@@ -230,12 +232,13 @@ class ReadNoise:
             nrmsGlobal = noiseImage[cond].size
 
             rmsGlobal = np.sqrt(rmsGlobal / nrmsGlobal)
-            print("\033[K", end="\r")
-            print(
-                "%4d  %f    %5.2f    %f"
-                % (s, rmsGlobal, self.sigmaRN, (ampReadNoise - rmsGlobal)),
-                end="",
-            )
+            if verbosity >= 1:
+                print("\033[K", end="\r")
+                print(
+                    "%4d  %f    %5.2f    %f"
+                    % (s, rmsGlobal, self.sigmaRN, (ampReadNoise - rmsGlobal)),
+                    end="",
+                )
 
             chk = ampReadNoise - rmsGlobal
             if chk * oldchk < 0:
diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 9e0b9fa..cea8463 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -16,9 +16,7 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
   double readNoiseAmp2 = SQUARE(readNoiseAmp);
 
     int idx;
-    print_v(1, "hello");
-    cout << "Hello World!";
-    
+
     for (int i = 0; i < rows * cols; i++) {
         dval0[i] = imageIn[i] - imageOut[i];
         dval9[i] = dval0[i];
-- 
2.43.0


From 27fd993561d7c829e2b40c17e3249280f4862dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 29/48] fix: load_image_from_txt: reject dimensions that are
 not positive

Negative ones aborted with an uncaught exception instead of an error message.
---
 src/util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.cpp b/src/util.cpp
index dff820f..c1c4d97 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -220,6 +220,8 @@ std::valarray<std::valarray<double> > load_image_from_txt(const char* filename)
     int n_columns;
     int c = fscanf(f, "%d %d", &n_rows, &n_columns);
     if (c != 2) error("Failed to read n_rows, n_columns '%s'", filename);
+    if ((n_rows <= 0) || (n_columns <= 0))
+        error("Invalid n_rows, n_columns (%d, %d) '%s'", n_rows, n_columns, filename);
 
     // Load image data
     std::valarray<std::valarray<double> > image(
-- 
2.43.0


From 2c9abd88eed45270823f47e8a153b9edea0863ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 30/48] fix: separate first transfers with one fewer express
 pass than transfers

The reverse-order branch was chosen by comparing express with n_transfers
after it had been decremented, so that express == n_rows - 1 (or n_pumps - 1)
gave a matrix with one column too few, which was then read out of bounds.
---
 src/roe.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 9a662b6..9d93c09 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -247,6 +247,9 @@ void ROE::set_express_matrix_from_rows_and_express(
  
     // Set default express to all transfers, and check no larger
 
+    // Whether there is a separate express pass for every transfer
+    bool is_full_express = (express >= n_transfers);
+
     // Temporarily ignore the first pixel-to-pixel transfer, if it is to be
     // handled differently than the rest
     if ((empty_traps_for_first_transfers) && (express < n_rows)) n_transfers--;
@@ -281,7 +284,7 @@ void ROE::set_express_matrix_from_rows_and_express(
     // Add an extra (first) transfer for every pixel, the effect of which
     // will only ever be counted once, because it is physically different
     // from the other transfers (it sees only empty traps)
-    if ((empty_traps_for_first_transfers) && (express >= n_transfers)) {
+    if ((empty_traps_for_first_transfers) && is_full_express) {
         // Reverse order of operations, so that first transfer always sees empty traps
         std::valarray<double> express_matrix_full = tmp_express_matrix;
         for (int i = 0; i < express; i++) {
@@ -292,7 +295,7 @@ void ROE::set_express_matrix_from_rows_and_express(
         }
         n_express_passes = express;
         
-    } else if ((empty_traps_for_first_transfers) && (express < n_transfers)) {
+    } else if (empty_traps_for_first_transfers) {
         // Create a new matrix for the full number of transfers
         // (this will eventually overwrite tmp_express_matrix, but that is first used)
         n_transfers++;
-- 
2.43.0


From 29bba885d2fcb69ff72b116cc3598437894e373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 31/48] fix: initialise members that default-constructed
 objects copy

ROEStepPhase::is_high and TrapManagerInstantCapture::any_non_uniform_traps
were copied while indeterminate when the valarrays of them were resized.
---
 include/roe.hpp           | 6 +++---
 include/trap_managers.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 6d22582..e473c95 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -22,13 +22,13 @@ class ROEStepPhase {
         std::valarray<double> release_fraction_to_pixels);
     ~ROEStepPhase(){};
 
-    bool is_high;
+    bool is_high = false;
     std::valarray<int> capture_from_which_pixels;
     std::valarray<int> release_to_which_pixels;
     std::valarray<double> release_fraction_to_pixels;
 
-    int n_capture_pixels;
-    int n_release_pixels;
+    int n_capture_pixels = 0;
+    int n_release_pixels = 0;
 };
 
 class ROE {
diff --git a/include/trap_managers.hpp b/include/trap_managers.hpp
index e45c56c..d897705 100644
--- a/include/trap_managers.hpp
+++ b/include/trap_managers.hpp
@@ -65,7 +65,7 @@ class TrapManagerInstantCapture : public TrapManagerBase {
     void set_fill_probabilities();
     void setup();
 
-    bool any_non_uniform_traps;
+    bool any_non_uniform_traps = false;
 
     double n_electrons_released();
     void update_watermarks_capture(
-- 
2.43.0


From 39aa10b73608b243cd487b67b9c1e138b20ba918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 32/48] fix: integrate continuum release times to a tolerance
 not met by chance

With a relative tolerance of 1e-6, the error estimate of the first level was
sometimes small by coincidence (about once in 1e5 fill fractions), giving
values wrong by up to a per cent.
---
 src/traps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 75e6cad..441f97c 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -270,7 +270,7 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     const double min = log(release_timescale) - 20 * release_timescale_sigma;
     const double max = log(release_timescale) + 20 * release_timescale_sigma;
     const double epsabs = 0.0;
-    const double epsrel = 1e-6;
+    const double epsrel = 1e-9;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
     const bool own_workspace = !workspace;
@@ -611,7 +611,7 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     const double min = log(release_timescale) - 20 * release_timescale_sigma;
     const double max = log(release_timescale) + 20 * release_timescale_sigma;
     const double epsabs = 0.0;
-    const double epsrel = 1e-6;
+    const double epsrel = 1e-9;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
     const bool own_workspace = !workspace;
@@ -881,7 +881,7 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     const double min = log(release_timescale) - 20 * release_timescale_sigma;
     const double max = log(release_timescale) + 20 * release_timescale_sigma;
     const double epsabs = 0.0;
-    const double epsrel = 1e-6;
+    const double epsrel = 1e-9;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
     const bool own_workspace = !workspace;
-- 
2.43.0


From 44ccf95371f159a790f06d7a026b3cb545670317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 33/48] fix: separating read noise of zero amplitude gave an
 image of NaN

---
 python/arcticpy/read_noise.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 3844152..02dbfdf 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -205,6 +205,11 @@ class ReadNoise:
                 sr_fraction = 1.0
 
         imageIn = image
+
+        # With no read noise there is nothing to separate (the model would be 0/0)
+        if np.all(np.equal(ampReadNoise, 0)):
+            return imageIn.copy(), np.zeros_like(imageIn)
+
         imageAdj = np.zeros_like(imageIn)  # adjustment image (for read noise modeling)
         imageOut = imageIn.copy()  # output ("smoothed") image
 
-- 
2.43.0


From 369cf05704b50531175d8fd3110e3d4547431859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:17 +0000
Subject: [PATCH 34/48] fix: invalid settings aborted the Python interpreter
 instead of raising

---
 python/arcticpy/wrapper.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/wrapper.pyx b/python/arcticpy/wrapper.pyx
index 4bee559..f1797c5 100644
--- a/python/arcticpy/wrapper.pyx
+++ b/python/arcticpy/wrapper.pyx
@@ -112,7 +112,7 @@ cdef extern from "interface.hpp":
         # Output
         int verbosity,
         int iteration
-    )
+    ) except +
 
 
 def cy_print_version():
-- 
2.43.0


From 795dc459a23d13da7ec5b1d3b5d7287274f6ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 35/48] fix: empty slow-capture continuum traps with long
 release times captured too much

fill_capture_long_time used a finite time since capture (100 times the
tables' maximum) for empty traps, so that traps that release slowly were
treated as partly full.
---
 src/traps.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 441f97c..a2e1538 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -955,7 +955,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
     fill_capture_max =
         fill_fraction_after_slow_capture(time_min, dwell_time, workspace);
     fill_capture_long_time =
-        fill_fraction_after_slow_capture(time_max * 100, dwell_time, workspace);
+        fill_fraction_after_slow_capture(
+            std::numeric_limits<double>::max(), dwell_time, workspace);
     fill_capture_zero_time = fill_fraction_after_slow_capture(0.0, dwell_time, workspace);
     d_log_time = (log(time_max) - log(time_min)) / (n_intp - 1);
     double time_i;
-- 
2.43.0


From 0a75a5f8662080a354b1a403cd40595b1f3ef2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 36/48] fix: slow-capture traps with instant capture lost
 electrons while full

With a capture timescale of zero (the default in python), full traps
inside the charge cloud were left with exp(-release_rate * dwell_time)
instead of being refilled at once.
---
 src/trap_managers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index cdfbf5a..a1c65d5 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1144,8 +1144,12 @@ void TrapManagerSlowCapture::set_fill_probabilities() {
                 traps[i_trap].capture_rate * exponential_factor;
 
         // Resulting fill fraction for filled traps (Eqn. 21)
-        fill_probabilities_from_full[i_trap] =
-            1.0 - traps[i_trap].release_rate * exponential_factor;
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instant capture
+            fill_probabilities_from_full[i_trap] = 1.0;
+        else
+            fill_probabilities_from_full[i_trap] =
+                1.0 - traps[i_trap].release_rate * exponential_factor;
 
         // Resulting empty fraction from only release
         empty_probabilities_from_release[i_trap] =
-- 
2.43.0


From a496544f6b88295baa5e32f4056bb9c1424e8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 37/48] fix: slow-capture continuum traps with instant capture
 captured nothing

The capture rate is stored as zero for a capture timescale of zero (the
default in python), which the fill fractions took for no capture.
---
 src/traps.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index a2e1538..475f712 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -860,6 +860,12 @@ double TrSCCo_ff_after_sc_integrand(double log_tau, void* params) {
     double fill_probability_from_empty = p->capture_rate * exponential_factor;
     double fill_probability_from_full = 1.0 - release_rate * exponential_factor;
 
+    // Instant capture
+    if (p->capture_rate == 0.0) {
+        fill_probability_from_empty = 1.0;
+        fill_probability_from_full = 1.0;
+    }
+
     // Initial fill fraction
     double f_0;
     if (p->time_elapsed == 0.0)
-- 
2.43.0


From 265f2ecd14222c0179a8631812d989bd0f28014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 38/48] fix: continuum traps with a (near) zero
 release_timescale_sigma aborted

Sigma zero is the default in python, and GSL aborts the process on the
integral of the zero-width distribution. Integrate over the number of
sigmas instead of log(tau).
---
 src/traps.cpp | 53 +++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 475f712..5939675 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -216,9 +216,10 @@ TrapInstantCaptureContinuum::TrapInstantCaptureContinuum(
     distribution with trap release timescales:
         f = int_0^inf n(tau) exp(-t_e/tau) dtau
 
-    The distribution is log-normal, so integrate over log(tau). Integrating to
-    infinity can fail for very small mu and/or sigma, so instead integrate over
-    log(mu) +/- 20 sigma for a more reliable and very close approximation.
+    The distribution is log-normal, so integrate over x = log(tau / mu) / sigma,
+    in which it is the same for any mu and sigma (including zero, for a single
+    release timescale). Integrating to infinity can fail, so instead integrate
+    over +/- 20 sigma for a more reliable and very close approximation.
 
     (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
 
@@ -243,13 +244,12 @@ struct TrICCo_ff_from_te_params {
     double sigma;
 };
 
-double TrICCo_ff_from_te_integrand(double log_tau, void* params) {
+double TrICCo_ff_from_te_integrand(double x, void* params) {
     struct TrICCo_ff_from_te_params* p = (struct TrICCo_ff_from_te_params*)params;
-    double tau = exp(log_tau);
+    double tau = p->mu * exp(p->sigma * x);
 
     // Distribution density
-    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-0.5 * x * x) / sqrt(2.0 * M_PI);
 
     // To integrate: n(tau) * fill_frac(tau) dlog(tau)
     return n * exp(-p->time_elapsed / tau);
@@ -267,9 +267,9 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = log(release_timescale) - 20 * release_timescale_sigma;
-    const double max = log(release_timescale) + 20 * release_timescale_sigma;
-    const double epsabs = 0.0;
+    const double min = -20.0;
+    const double max = 20.0;
+    const double epsabs = 1e-300;  // Do not resolve subnormal fractions
     const double epsrel = 1e-9;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
@@ -584,13 +584,12 @@ struct TrSCCo_ff_from_te_params {
     double sigma;
 };
 
-double TrSCCo_ff_from_te_integrand(double log_tau, void* params) {
+double TrSCCo_ff_from_te_integrand(double x, void* params) {
     struct TrSCCo_ff_from_te_params* p = (struct TrSCCo_ff_from_te_params*)params;
-    double tau = exp(log_tau);
+    double tau = p->mu * exp(p->sigma * x);
 
     // Distribution density
-    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-0.5 * x * x) / sqrt(2.0 * M_PI);
 
     // To integrate: n(tau) * fill_frac(tau) dlog(tau)
     return n * exp(-p->time_elapsed / tau);
@@ -608,9 +607,9 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
 
     // Prep the integration
     double result, error;
-    const double min = log(release_timescale) - 20 * release_timescale_sigma;
-    const double max = log(release_timescale) + 20 * release_timescale_sigma;
-    const double epsabs = 0.0;
+    const double min = -20.0;
+    const double max = 20.0;
+    const double epsabs = 1e-300;  // Do not resolve subnormal fractions
     const double epsrel = 1e-9;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
@@ -812,9 +811,10 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
         f(tau) = f_0(tau) f_f(tau) + (1 - f_0(tau)) f_e(tau)
         f = int_0^inf n(tau) f(tau) dtau
 
-    The distribution is log-normal, so integrate over log(tau). Integrating to
-    infinity can fail for very small mu and/or sigma, so instead integrate over
-    log(mu) +/- 20 sigma for a more reliable and very close approximation.
+    The distribution is log-normal, so integrate over x = log(tau / mu) / sigma,
+    in which it is the same for any mu and sigma (including zero, for a single
+    release timescale). Integrating to infinity can fail, so instead integrate
+    over +/- 20 sigma for a more reliable and very close approximation.
 
     (www.gnu.org/software/gsl/doc/html/integration.html#qag-adaptive-integration)
 
@@ -845,13 +845,12 @@ struct TrSCCo_ff_after_sc_params {
     double dwell_time;
 };
 
-double TrSCCo_ff_after_sc_integrand(double log_tau, void* params) {
+double TrSCCo_ff_after_sc_integrand(double x, void* params) {
     struct TrSCCo_ff_after_sc_params* p = (struct TrSCCo_ff_after_sc_params*)params;
-    double tau = exp(log_tau);
+    double tau = p->mu * exp(p->sigma * x);
 
     // Distribution density
-    double n = exp(-pow(log_tau - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
-               (p->sigma * sqrt(2.0 * M_PI));
+    double n = exp(-0.5 * x * x) / sqrt(2.0 * M_PI);
 
     // Rates and fill probabilities
     double release_rate = 1.0 / tau;
@@ -884,9 +883,9 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     double time_elapsed, double dwell_time, gsl_integration_workspace* workspace) {
     // Prep the integration
     double result, error;
-    const double min = log(release_timescale) - 20 * release_timescale_sigma;
-    const double max = log(release_timescale) + 20 * release_timescale_sigma;
-    const double epsabs = 0.0;
+    const double min = -20.0;
+    const double max = 20.0;
+    const double epsabs = 1e-300;  // Do not resolve subnormal fractions
     const double epsrel = 1e-9;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
-- 
2.43.0


From 96dab17c36f6968cd5e53308794d66e6a1e6411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 39/48] fix: partly filled continuum traps released as if
 captured longer ago

Traps filled by too few electrons to more than is left after a dwell time
lie outside the table of fill fractions, where the extrapolation in
log(time) put the time since capture wrong by up to tens of per cent.
---
 src/traps.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index 5939675..7214f7f 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -522,6 +522,17 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction_table(
                   fill_fraction) -
               std::begin(fill_fraction_table) - 1;
 
+    // Fuller than at the shortest time in the table, where a fill fraction that
+    // is linear in log(time) is too far off: extrapolate log(-log(fill)), which
+    // is linear in log(time) for a single release timescale
+    if (idx == n_intp - 1) {
+        const double y_0 = log(-log(fill_fraction_table[n_intp - 2]));
+        const double y_1 = log(-log(fill_fraction_table[n_intp - 1]));
+        const double y = log(-log(fill_fraction));
+        const double log_time = log(time_min) + (y - y_1) / (y_0 - y_1) * d_log_time;
+        if (std::isfinite(log_time)) return exp(log_time);
+    }
+
     // Extrapolate if outside the table
     if (idx < 0)
         idx = 0;
-- 
2.43.0


From 8a5e3a5d043899b6962bb63f358f927c84af5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 40/48] fix: pruning divided zero by zero where two watermarks
 hold no electrons

Slow-capture managers leave watermarks of (to rounding) no volume. Pruning
one into another made the volumes and fills NaN.
---
 src/trap_managers.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a1c65d5..78caea7 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -359,8 +359,13 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
             // but ensures no fill fractions ever exceed 1)
             double n_trapped_electrons_in_last_wmk = n_trapped_electrons_in_watermark(i_wmk_prime - 1);
                         
-            double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
-                n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
+            double delta_volume_below = 0.0;
+            if (n_trapped_electrons_in_this_wmk > 0.0) {
+                // Keep this watermark if no traps are filled in the one below
+                if (n_trapped_electrons_in_last_wmk <= 0.0) continue;
+                delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
+                    n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
+            }
 
             // Keep this watermark if its electrons would not fit in its own volume at
             // the fill fractions of the watermark below (so that no volume becomes
-- 
2.43.0


From 448345de95c691a95a00f42fa6d49bafbc416d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 41/48] fix: rounding could fill slow-capture continuum traps
 above one, and lose their time

---
 src/traps.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 7214f7f..165d803 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -919,7 +919,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
 
     if (status) error("Integration failed, status %d", status);
 
-    return result;
+    // Rounding may take full traps just above one
+    return fmin(result, 1.0);
 }
 
 /*
-- 
2.43.0


From 1fa4d82ef9b1400528c0f679938893501cb51cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 42/48] fix: nearly full slow-capture continuum traps released
 as if captured up to a third of the shortest time ago

---
 src/traps.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index 165d803..470ec07 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -798,6 +798,15 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction_table(
                   fill_fraction) -
               std::begin(fill_fraction_table) - 1;
 
+    // Fuller than at the shortest time in the table: as for instant capture
+    if (idx == n_intp - 1) {
+        const double y_0 = log(-log(fill_fraction_table[n_intp - 2]));
+        const double y_1 = log(-log(fill_fraction_table[n_intp - 1]));
+        const double y = log(-log(fill_fraction));
+        const double log_time = log(time_min) + (y - y_1) / (y_0 - y_1) * d_log_time;
+        if (std::isfinite(log_time)) return exp(log_time);
+    }
+
     // Extrapolate if outside the table
     if (idx < 0)
         idx = 0;
@@ -1014,6 +1023,13 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture_table(
     else if (time_elapsed == -1.0)
         return 0.0;
 
+    // Shorter than the times in the table: between those and completely full
+    if (time_elapsed < time_min)
+        return clamp(
+            fill_capture_zero_time +
+                (fill_capture_max - fill_capture_zero_time) * time_elapsed / time_min,
+            0.0, 1.0);
+
     // Get the index and interpolation factor
     double intp = (log(time_max) - log(time_elapsed)) / d_log_time;
     int idx = (int)std::floor(intp);
-- 
2.43.0


From 85eae3eafe1670aec397e7e376a909e89ad08d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 43/48] fix: fraction of surface traps exposed by a thin volume

---
 src/traps.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 470ec07..bd54143 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -132,8 +132,9 @@ double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
         double v_low = std::max(fractional_volume_low, fractional_volume_none_exposed);
         double v_high =
             std::min(fractional_volume_high, fractional_volume_full_exposed);
-        fraction = (0.5 * v_high * v_high - fractional_volume_none_exposed * v_high -
-                    0.5 * v_low * v_low + fractional_volume_none_exposed * v_low) /
+        // Factorised, as the terms of the above almost cancel for a thin volume
+        fraction = (0.5 * (v_low + v_high) - fractional_volume_none_exposed) *
+                   (v_high - v_low) /
                    (fractional_volume_full_exposed - fractional_volume_none_exposed);
         // + (v_h - b)
         if (fractional_volume_high > fractional_volume_full_exposed)
-- 
2.43.0


From ea1523bb5d065712e127167bd7556338a4fa8dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 44/48] fix: pixel bounce of images of unsigned integers

---
 python/arcticpy/pixel_bounce.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 496f273..969f764 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -93,6 +93,9 @@ class PixelBounce:
         bias : [[float]]
             The output bias image array of pixel values.
         """
+        # Differences between unsigned integers would wrap around
+        image = np.asarray(image, dtype=np.double)
+
         # Initialise bias offset voltage, which should settle during prescan
         # of each row
         bias = np.zeros(image.shape)
@@ -238,6 +241,9 @@ class PixelBounce:
         coeffB = np.exp(-2 * self.gamma * epsilon)
         biasm1 = 0.0
 
+        # Differences between unsigned integers would wrap around
+        image = np.asarray(image, dtype=np.double)
+
         # Read out one column of pixels through the (column of) traps
         n_rows_in_image, n_columns_in_image = image.shape
         import copy
-- 
2.43.0


From 3b957fa94cc35896025c886452176613255618e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:24 +0000
Subject: [PATCH 45/48] fix: a Poisson draw of surface traps stays at their
 depths

---
 python/arcticpy/traps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/arcticpy/traps.py b/python/arcticpy/traps.py
index f5e2d75..5719fc6 100644
--- a/python/arcticpy/traps.py
+++ b/python/arcticpy/traps.py
@@ -61,7 +61,10 @@ class TrapInstantCapture(AbstractTrap):
         poisson_density_per_pixel = poisson_density_pixels / total_pixels
 
         return TrapInstantCapture(
-            density=poisson_density_per_pixel, release_timescale=self.release_timescale
+            density=poisson_density_per_pixel,
+            release_timescale=self.release_timescale,
+            fractional_volume_none_exposed=self.fractional_volume_none_exposed,
+            fractional_volume_full_exposed=self.fractional_volume_full_exposed,
         )
 
 
-- 
2.43.0


From 780a363bb4e504bef0b6fccf69ad056d90192e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:24 +0000
Subject: [PATCH 46/48] fix: the demonstration printed its images at verbosity
 zero

---
 src/main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 64e0cc5..e96bad4 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -45,7 +45,7 @@ int run_demo() {
     std::valarray<std::valarray<double> > image_pre_cti =
         load_image_from_txt((char*)"image_test_pre_cti.txt");
     print_v(1, "\n# Loaded test image from image_test_pre_cti.txt: \n");
-    print_array_2D(image_pre_cti);
+    if (verbosity >= 1) print_array_2D(image_pre_cti);
 
     // CTI model parameters
     TrapInstantCapture trap(10.0, -1.0 / log(0.5));
@@ -78,7 +78,7 @@ int run_demo() {
         express, offset, window_start, window_stop, time_start, time_stop, 
         prune_n_electrons, prune_frequency, 0);
     print_v(1, "\n# Image with CTI added: \n");
-    print_array_2D(image_post_cti);
+    if (verbosity >= 1) print_array_2D(image_post_cti);
 
     // Remove CTI
     print_v(1, "\n# Remove CTI \n");
@@ -92,7 +92,7 @@ int run_demo() {
         express, offset, window_start, window_stop, time_start, time_stop, 
         prune_n_electrons, prune_frequency);
     print_v(1, "\n# Image with CTI removed: \n");
-    print_array_2D(image_remove_cti);
+    if (verbosity >= 1) print_array_2D(image_remove_cti);
 
     // Save the final image
     save_image_to_txt((char*)"image_test_cti_removed.txt", image_remove_cti);
-- 
2.43.0


From d77c8f8ca6a4ebeba2788b44eb971ef3981fb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:24 +0000
Subject: [PATCH 47/48] fix: the benchmark ended with success when its image
 could not be fetched (exit status 256)

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index e96bad4..4d96856 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -117,7 +117,7 @@ int run_benchmark() {
             "wget http://www.astro.dur.ac.uk/~rjm/ArCTIc/benchmark_2k2k_image.txt";
         printf("%s\n", command);
         int status = system(command);
-        if (status != 0) exit(status);
+        if (status != 0) exit(1);
     } else
         fclose(f);
 
-- 
2.43.0


From ea75cde21aea663331d780e2181d5f0bdd285c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:24 +0000
Subject: [PATCH 48/48] fix: continuum traps released everything at once when
 their elapsed time overflowed

---
 src/trap_managers.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 78caea7..31599af 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1539,6 +1539,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released_from_wmk_above_c
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
             fill_initial / trap_densities[i_trap]);
 
+        // Too long ago to be represented, such that nothing is released
+        if (std::isinf(time_initial)) continue;
+
         // New fill fraction from updated elapsed time
         fill_final = trap_densities[i_trap] *
             traps[i_trap].fill_fraction_from_time_elapsed_table(
@@ -1577,6 +1580,9 @@ double TrapManagerInstantCaptureContinuum::n_electrons_released() {
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
                 fill_initial / trap_densities[i_trap]);
 
+            // Too long ago to be represented, such that nothing is released
+            if (std::isinf(time_initial)) continue;
+
             // New fill fraction from updated elapsed time
             watermark_fills[i_wmk * n_traps + i_trap] =
                 trap_densities[i_trap] *
@@ -1967,6 +1973,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_from_wmk_above_clou
         time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
             fill_initial / trap_densities[i_trap]);
 
+        // Too long ago to be represented, such that nothing is released
+        if (std::isinf(time_initial)) continue;
+
         // New fill fraction from updated elapsed time
         fill_final = trap_densities[i_trap] *
             traps[i_trap].fill_fraction_from_time_elapsed_table(
@@ -2078,6 +2087,9 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
             time_initial = traps[i_trap].time_elapsed_from_fill_fraction_table(
                 fill_initial / trap_densities[i_trap]);
 
+            // Too long ago to be represented, such that nothing is released
+            if (std::isinf(time_initial)) continue;
+
             // New fill fraction from updated elapsed time
             watermark_fills[i_wmk * n_traps + i_trap] =
                 trap_densities[i_trap] *
-- 
2.43.0

