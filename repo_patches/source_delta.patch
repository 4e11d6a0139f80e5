From a2ebc321a20f2a8cb75847316b6043d28604416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 01/24] fix: drop the extrema before a jump at the start of the
 data

The extremum on the early side of the gap was kept, so the missing
extremum was still inside the data used for the interpolants.
---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 977294e..1dabcda 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1398,11 +1398,11 @@ class eccDefinition:
                 f"{phase_diff_previous/(4*np.pi):.2f}*4pi\n"
                 f"phase_gw difference between the next pair of {extrema_type}="
                 f"{phase_diff_current/(4*np.pi):.2f}*4pi\n"
-                f"{extrema_type} before {last_pair_indices[1]}, i.e., t < t="
-                f"{last_pair_times[-1]} are therefore dropped.",
+                f"{extrema_type} before {last_pair_indices[0]}, i.e., t < t="
+                f"{last_pair_times[0]} are therefore dropped.",
                 self.debug_level, important=False)
             extrema_location = extrema_location[extrema_location >=
-                                                extrema_location[last_idx]]
+                                                extrema_location[last_idx+1]]
         return extrema_location
 
     def drop_extrema_if_too_close(self, extrema_location,
-- 
2.43.0


From 189e43a123f124fac4c959ccadedc79ee0fe73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 02/24] fix: drop the early member of a too close pair at the
 start of the data

As documented, for [1, 3, 4, 6, ...] with {3, 4} too close both 1 and 3 are
dropped; only 1 was.
---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 1dabcda..71bc403 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1453,7 +1453,7 @@ class eccDefinition:
             if idx_too_close[-1] < mid_index:
                 last_index = idx_too_close[-1]
                 last_pair = [extrema_location[last_index],
-                             extrema_location[last_index-1]]
+                             extrema_location[last_index+1]]
                 last_pair_times = self.t[last_pair]
                 debug_message(
                     f"At least a pair of {extrema_type} are too close to "
@@ -1462,12 +1462,12 @@ class eccDefinition:
                     " Last pair of such extrema is located in the first half"
                     f" of the {extrema_type} locations between {last_pair},"
                     f"i.e., t={last_pair_times}.\n"
-                    f" {extrema_type} before {extrema_location[last_index]}"
-                    f" i.e., t < {self.t[extrema_location[last_index]]} "
+                    f" {extrema_type} before {extrema_location[last_index+1]}"
+                    f" i.e., t < {self.t[extrema_location[last_index+1]]} "
                     "are dropped.",
                     self.debug_level, important=False)
                 extrema_location = extrema_location[
-                    extrema_location >= extrema_location[last_index]]
+                    extrema_location >= extrema_location[last_index+1]]
         return extrema_location
 
     def get_good_extrema(self, pericenters, apocenters,
-- 
2.43.0


From 343546a14bcab6a7c8c73378f9fc02835981908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 03/24] fix: do not truncate the caller's omegalm dictionary

---
 gw_eccentricity/eccDefinition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 71bc403..6775847 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -645,7 +645,9 @@ class eccDefinition:
         amp_phase_omega_dict.update(self.get_phaselm_from_dataDict(dataDict))
         # add omegalm
         if "omegalm" in dataDict:
-            amp_phase_omega_dict.update({"omegalm": dataDict["omegalm"]})
+            # make a copy so that truncating it later does not modify the
+            # user-given dictionary
+            amp_phase_omega_dict.update({"omegalm": dict(dataDict["omegalm"])})
         else:
             # compute it from phaselm that is already in amp_phase_omega_dict
             amp_phase_omega_dict.update(
-- 
2.43.0


From 44e9a5e5757eba30d37327124fc1d8e134832b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 04/24] fix: FrequencyFits must not shift the caller's time
 array in place

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 959b610..654bae6 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -180,9 +180,12 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         
         # The fit function assume the merger to be at t=0. So we align the time
         # axis such that merger occurs at t=0.
-        # After the peaks are found, the time is reshifted to to its original
+        # After the peaks are found, the time is set back to its original
         # values at the end of this function so the merger is again at t_merger.
-        self.t -= self.t_merger
+        # The shift is not done in place because self.t may share its memory
+        # with the time array given by the user.
+        t_original = self.t
+        self.t = self.t - self.t_merger
 
         # DESIRED NUMBER OF EXTREMA left/right DURING FITTING
         # Code will look for N extrema to the left of idx_ref, and N+1 extrema
@@ -448,9 +451,9 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                                   np.array(data_extrema_refined),
                                   np.array(phase_gw_extrema_refined)]
 
-        # Now that we are done with finding peaks, we shift the time axis to
+        # Now that we are done with finding peaks, we set the time axis to
         # it's original values
-        self.t += self.t_merger
+        self.t = t_original
         return np.array(extrema)
 
         # Procedure:
-- 
2.43.0


From a8e1a73b2fd3ff5c642f992e4e81069eadd8c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 05/24] fix: do not add filter_kwargs to the caller's
 extra_kwargs

---
 gw_eccentricity/eccDefinition.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 6775847..b1d9fc3 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -476,9 +476,10 @@ class eccDefinition:
         # `spin_filter.py`.
         if self.precessing:
             # set extra_kwargs to empty dict if it is None to avoid issues when
-            # trying to access or set keys in extra_kwargs.
-            if extra_kwargs is None:
-                extra_kwargs = {}
+            # trying to access or set keys in extra_kwargs. Otherwise, make a
+            # copy so that the user-given extra_kwargs is not modified.
+            extra_kwargs = {} if extra_kwargs is None \
+                else deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
             filter_kwargs = check_kwargs_and_set_defaults(
-- 
2.43.0


From bc45dd48aaf3747d42c871720f472714b15b0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 06/24] fix: get_interpolant must not alter the spline_kwargs
 it is given

---
 gw_eccentricity/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index d7f78a7..a953584 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -277,6 +277,9 @@ def get_interpolant(oldX,
         raise Exception("oldX must have increasing values")
 
     if interpolator == "spline":
+        # make a copy so that the original spline_kwargs remains unmodified.
+        if spline_kwargs is not None:
+            spline_kwargs = spline_kwargs.copy()
         if check_kwargs:
             spline_kwargs = check_kwargs_and_set_defaults(
                 spline_kwargs, get_default_spline_kwargs(), "spline kwargs",
@@ -287,14 +290,10 @@ def get_interpolant(oldX,
                 warnings.warn(f"No of data points is {len(oldX)} but "
                               f"spline order k = {spline_kwargs['k']}. "
                               f"Decreasing k to {len(oldX) - 1}.")
-                # make a copy so that the original spline_kwargs remains
-                # unmodified.
-                kwargs = spline_kwargs.copy()
-                kwargs["k"] = len(oldX) - 1
-            else:
-                kwargs = spline_kwargs
+                spline_kwargs["k"] = len(oldX) - 1
+            kwargs = spline_kwargs
         else:
-            raise Exception("Number of data points is {len(oldX)}."
+            raise Exception(f"Number of data points is {len(oldX)}."
                             " Cannot build an interpolant.")
         # If allowExtrapolation is True but ext=2 then raise a warning
         # and override ext to 0
-- 
2.43.0


From 717724e609505dbdf120ad7d5eec258813df9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 07/24] fix: transform inertial circular amplitudes too and
 leave the caller's dict alone

---
 gw_eccentricity/eccDefinition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index b1d9fc3..2eaedf9 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -959,7 +959,10 @@ class eccDefinition:
             phaselm_dict = self.get_phaselm_from_dataDict(data_dict)
             # combine amplm and phaselm to get hlm
             hlm_dict = self.get_hlm_from_amplm_phaselm(amplm_dict, phaselm_dict)
-            data_dict.update(hlm_dict)
+            # Add only the hlm modes for the given `tag`, the other modes (if
+            # any) still need to be transformed. Do this on a copy so that the
+            # user-given dictionary is not modified.
+            data_dict = {**data_dict, "hlm" + tag: hlm_dict["hlm" + tag]}
             data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
             debug_message(
                 f"Removing the input inertial frame {'amplm' + tag}, "
-- 
2.43.0


From f1722e0c9813e0ae1589f7b9e9e65a08dc6a2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 08/24] fix: raise for reference times beyond the circular data
 again

---
 gw_eccentricity/eccDefinition.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 2eaedf9..05280ba 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2443,10 +2443,12 @@ class eccDefinition:
                 "pericenters/apocenters.")
         # check that tref_out is within t_zeroecc_shifted to make sure that
         # the output is not in the extrapolated region.
-        if "hlm_zeroecc" in self.dataDict and (self.tref_out[-1]
-                                               > self.t_zeroecc_shifted[-1]):
+        # NOTE: self.dataDict contains only the amplitude, phase and omega.
+        if "amplm_zeroecc" in self.dataDict \
+                and "omegalm_zeroecc" in self.dataDict \
+                and max(self.tref_out) > self.t_zeroecc_shifted[-1]:
             raise Exception("tref_out is in extrapolated region.\n"
-                            f"Last element in tref_out = {self.tref_out[-1]}\n"
+                            f"Last time in tref_out = {max(self.tref_out)}\n"
                             "Last element in t_zeroecc = "
                             f"{self.t_zeroecc_shifted[-1]}.\nThis might happen"
                             " when 'num_orbits_to_exclude_before_merger' is "
-- 
2.43.0


From ae637dd9e581d3ad0ae9948dbe1aaf9b45413887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 09/24] fix: keep the last sample when the short segment
 reaches the end of the data

---
 gw_eccentricity/eccDefinition.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 05280ba..c5f2d2c 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1980,7 +1980,8 @@ class eccDefinition:
             right_indices = np.where(
                 self.phase_gw >= self.phase_gw[right] + 2.5 * 4 *np.pi)[0]
             left = left_indices[0] if len(left_indices) > 1 else 0
-            right = right_indices[0] if len(right_indices) > 1 else -1
+            right = right_indices[0] if len(right_indices) > 1 \
+                else len(self.t)
             
         time = self.t[left:right]
         omega = self.omega_gw[left:right]
@@ -2121,9 +2122,10 @@ class eccDefinition:
                 + width_each_side
                 + additional_orbits_to_add_on_the_right * FOUR_PI_K
             ))[0]
-        self.segment_end_index = right_indices[0] if len(right_indices) > 0 else -1
+        self.segment_end_index = right_indices[0] if len(right_indices) > 0 \
+            else len(self.phase_gw)
         # adjust left side if near right boundary
-        if self.segment_end_index == -1:
+        if len(right_indices) == 0:
             additional_orbits_to_add_on_the_left = self._compute_additional_orbits(
                 "right", phase_right, -1, orbits_between, FOUR_PI_K)
             # update start index
-- 
2.43.0


From db20e3b579188eef5815eb630ae11ab15e50c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 10/24] fix: use the earliest and latest reference points for
 the short segment

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index c5f2d2c..d600ce5 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2057,13 +2057,13 @@ class eccDefinition:
     def _get_reference_bounds(self):
         """Get t_left and t_right depending on domain (time or frequency)."""
         if self.domain == "time":
-            t_left, t_right = self.tref_in[0], self.tref_in[-1]
+            t_left, t_right = np.min(self.tref_in), np.max(self.tref_in)
         else:
             t_left = self.get_approximate_tref_for_fref_using_secular_trend(
-                self.fref_in[0])
+                np.min(self.fref_in))
             if len(self.fref_in) > 1:
                 t_right = self.get_approximate_tref_for_fref_using_secular_trend(
-                    self.fref_in[-1])
+                    np.max(self.fref_in))
             else:
                 t_right = t_left
         return t_left, t_right
-- 
2.43.0


From 334cfb1cd8ebac747213c885622b18210866591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 11/24] fix: align the merger at t=0 for the secular trend fit
 of omega_gw

---
 gw_eccentricity/eccDefinition.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index d600ce5..e0099b4 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1990,11 +1990,14 @@ class eccDefinition:
             step = len(time) // 1000
             time = time[::step]
             omega = omega[::step]
-        # get the secular trend
-        secular_trend = QusicircularFitForMappingFrequencyToTime(time, omega)
+        # get the secular trend. The fit assumes the merger to be at t=0.
+        time_to_merger = time - self.t_merger
+        secular_trend = QusicircularFitForMappingFrequencyToTime(
+            time_to_merger, omega)
         res = secular_trend.least_square_fit()
         # get the location where the secular trend crosses omega_ref
-        idx = np.argmin(np.abs(secular_trend.model(time, *res.x) - omega_ref))
+        idx = np.argmin(np.abs(
+            secular_trend.model(time_to_merger, *res.x) - omega_ref))
         return time[idx]
         
     def get_amp_phase_omega_gw_segments(self):
-- 
2.43.0


From 488d962d6d52855ca5cc22bd3a4d5592c8fbf4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 12/24] fix: respect debug_level when falling back to zero
 eccentricity

---
 gw_eccentricity/eccDefinition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index e0099b4..26087bc 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1858,7 +1858,7 @@ class eccDefinition:
                     "Instead the eccentricity and mean anomaly will be set to "
                     "zero.",
                     important=True,
-                    debug_level=0)
+                    debug_level=self.debug_level)
             else:
                 recommended_methods = ["ResidualAmplitude", "AmplitudeFits"]
                 if self.method not in recommended_methods:
-- 
2.43.0


From e225e37ede868124604b4e5e3c4ed39ce39869da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 13/24] fix: print rational fit iterations only when requested
 or from debug_level 1 on

---
 gw_eccentricity/eccDefinition.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 26087bc..edb4dde 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1204,6 +1204,9 @@ class eccDefinition:
             kwargs = get_default_spline_kwargs()
         elif self.omega_gw_extrema_interpolation_method == "rational_fit":
             kwargs = get_default_rational_fit_kwargs()
+            # By default, print information of each iteration of the rational
+            # fits for a given degree only if debug_level is 1 or higher.
+            kwargs["verbose"] = self.debug_level > 0
         else:
             raise Exception(
                 "Unknown omega_gw extrema interpolation method "
@@ -1219,10 +1222,6 @@ class eccDefinition:
         debugging purpose. These variables may vary from method to method.
         """
         if self.omega_gw_extrema_interpolation_method == "rational_fit":
-            # set verbose to debug_level. If verbose is True, then it prints
-            # information of each iteration for rational fits for a given
-            # degree.
-            self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = self.debug_level
             # keep history of rational fit degree and nonmonotonicity of the
             # corresponding fits
             self.rational_fit_nonmonotonicity_history = {
-- 
2.43.0


From 123f1a3c08885f501c232131fb467201a1f16e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 14/24] fix: pass the mean anomaly to the LAL generator

---
 gw_eccentricity/load_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e2a8a16..7e2094b 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -305,6 +305,7 @@ def load_LAL_waveform_using_hack(approximant, q, chi1, chi2, ecc, mean_ano,
     # h = hp -1j * hc
     t, h = generate_LAL_waveform(approximant, q, chi1, chi2,
                                  deltaTOverM, Momega0, eccentricity=ecc,
+                                 meanPerAno=mean_ano,
                                  phi_ref=phi_ref, inclination=inclination,
                                  physicalUnits=physicalUnits, M=M, D=D)
 
@@ -1351,6 +1352,8 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # waveform with approximant provided in nr_dataDict["params_dict"]
     zero_ecc_kwargs = params_dict.copy()
     zero_ecc_kwargs["ecc"] = 0.0
+    # mean anomaly has no meaning for ecc=0, and may be missing in the metadata
+    zero_ecc_kwargs["mean_ano"] = 0.0
     zero_ecc_kwargs["include_zero_ecc"] = False  # to avoid double calc
     # calculate the Momega0 so that the length is >= the length of the NR
     # waveform.
-- 
2.43.0


From 3e84f4ad2be3b2dc3b0ad41e1706c6b657032ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 15/24] fix: measure the NR start time from merger and keep all
 of a short circular waveform

---
 gw_eccentricity/load_data.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 7e2094b..fd3c727 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1363,8 +1363,10 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
             nr_dataDict["t"],
             amplitude_using_all_modes(nr_dataDict["hlm"]))[0]
     M = 10  # will be factored out
-    inspiralTime = (t_merger
-                    - nr_dataDict["t"][0]) * time_dimless_to_mks(M)
+    # start time of the NR waveform with respect to its merger, to compare
+    # with the zeroecc waveform where merger is at t = 0
+    t_start = nr_dataDict["t"][0] - t_merger
+    inspiralTime = -t_start * time_dimless_to_mks(M)
     # get the initial frequency to generate waveform of inspiral time
     # roughly equal to that of the NR one.
     # The following function that estimates the initial frequency to
@@ -1389,9 +1391,9 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
 
     # if f0 is too small and generate too long zero ecc waveform
     # report that
-    if -t_zeroecc[0] >= - 2 * nr_dataDict["t"][0]:
+    if -t_zeroecc[0] >= - 2 * t_start:
         warnings.warn("zeroecc waveform is too long. It's "
-                      f"{t_zeroecc[0]/nr_dataDict['t'][0]:.2f}"
+                      f"{t_zeroecc[0]/t_start:.2f}"
                       " times the ecc waveform.")
     # We need the zeroecc modes to be long enough, at least the same length
     # as the eccentric one to get the residual amplitude correctly.
@@ -1399,7 +1401,7 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # initial Momega0 by a factor of 2 and generate the waveform again
     # NEED A BETTER SOLUTION to this later
     num_tries = 0
-    while t_zeroecc[0] > nr_dataDict["t"][0]:
+    while t_zeroecc[0] > t_start:
         zero_ecc_kwargs["Momega0"] = zero_ecc_kwargs["Momega0"] / 2
         dataDict_zeroecc = load_waveform(origin="LAL", **zero_ecc_kwargs)
         t_zeroecc = dataDict_zeroecc["t"]
@@ -1412,8 +1414,8 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # Finally we want to return zeroecc data only about the length of the
     # eccentric waveform and truncate the rest of the waveform to avoid
     # wasting computing resources
-    start_zeroecc_idx = np.argmin(
-        np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10
+    start_zeroecc_idx = max(
+        np.argmin(np.abs(t_zeroecc - t_start)) - 10, 0)
     for key in hlm_zeroecc.keys():
         hlm_zeroecc[key] = hlm_zeroecc[key][start_zeroecc_idx:]
 
-- 
2.43.0


From ed84b1788c2c6d5ea22952622c6085a33d7cafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 16/24] fix: replace the checkpoint only after it is completely
 written

---
 gw_eccentricity/postprocess/postprocess_cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 76186e5..85043fd 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -5,6 +5,7 @@ import importlib
 import importlib.util
 import json
 import logging
+import os
 import time
 from pathlib import Path
 from typing import TypedDict, Callable
@@ -186,7 +187,11 @@ def save_checkpoint(results: list, config: PostProcessConfig) -> None:
     """Save results to checkpoint file (parquet format)."""
     results_df = PostProcessResults([r for r in results if r is not None]).to_dataframe()
     checkpoint_path = f"{config['output_dir']}/checkpoint.parquet"
-    results_df.to_parquet(checkpoint_path)
+    # Write to a temporary file first so that an interruption while writing
+    # does not destroy the previous checkpoint.
+    tmp_path = f"{checkpoint_path}.tmp"
+    results_df.to_parquet(tmp_path)
+    os.replace(tmp_path, checkpoint_path)
     logger.info("Checkpoint saved: %s", checkpoint_path)
 
 
-- 
2.43.0


From db4ddc145ec0c9399692fd66053a13aa7ce6a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 17/24] fix: select a repeated sample once and reject an empty
 selection

---
 gw_eccentricity/postprocess/postprocess_cli.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 85043fd..b6226ca 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -74,10 +74,15 @@ def parse_samples(value):
         start = int(parts[0]) if parts[0] else 0
         stop  = int(parts[1])
         step  = int(parts[2]) if len(parts) == 3 and parts[2] else 1
-        return list(range(start, stop, step))
-    if "," in text:
-        return [int(x.strip()) for x in text.split(",") if x.strip()]
-    return [int(text)]  # always return a list, never a bare int
+        samples = list(range(start, stop, step))
+    elif "," in text:
+        samples = [int(x.strip()) for x in text.split(",") if x.strip()]
+    else:
+        samples = [int(text)]  # always return a list, never a bare int
+    if not samples:
+        raise ValueError(f"No samples selected by {value!r}")
+    # keep the order, but do not process a repeated sample twice
+    return list(dict.fromkeys(samples))
 
 
 def parse_json_dict(value, arg_name):
-- 
2.43.0


From dd9a23b21c4bd67aae81a6d4deba635b00cc6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 18/24] fix: summarize an empty list of results without
 dividing by zero

---
 gw_eccentricity/postprocess/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index bf2a628..6049ca8 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -33,7 +33,7 @@ class PostProcessResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (len(successful) / total) * 100 if total else 0,
             'egw': [r.egw for r in successful],
             'lgw': [r.lgw for r in successful]
         }
@@ -65,7 +65,7 @@ class FrefBoundsResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (len(successful) / total) * 100 if total else 0,
             'fref_min': [r.fref_min for r in successful],
             'fref_max': [r.fref_max for r in successful]
         }
-- 
2.43.0


From 3547603d7e35332c8d0221977abe01e999d62958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 19/24] fix: size the refinement interval by the frequency,
 also for AmplitudeFits

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 654bae6..1de2b2a 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -972,7 +972,8 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                   "Npoints=", end='')
         for k in range(len(t_extrema)):
             # length of fitting interval = 0.05radians left/right
-            deltaT = 0.05 / data_extrema[k]
+            # NOTE: data_extrema is not a frequency for AmplitudeFits.
+            deltaT = 0.05 / np.interp(t_extrema[k], self.t, self.omega_gw)
             idx_refine = np.abs(self.t - t_extrema[k]) < deltaT
             # number of points to be used in fit
             N_refine = sum(idx_refine)
-- 
2.43.0


From 97f2335b7f9807682e96d696a496c0d9f0865e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 20/24] fix: judge the convergence of the envelope fit relative
 to the data

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 1de2b2a..f939538 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -542,7 +542,8 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
             bounds for the fit-parameters
         TOL
             Iterate until the maximum change in any one data at an
-            extremum is less tha this TOL
+            extremum, relative to the largest data at the extrema, is less
+            than this TOL
         increase_idx_ref_if_needed
             if true, allows to increase idx_ref in order to achieve Nbefore
             extrema between start of dataset and idx_ref (idx_ref will never be
@@ -908,7 +909,7 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                 return idx_extrema, p, K, idx_ref, [t_extrema, data_extrema,
                                                     phase_gw_extrema]
 
-            if max_delta_data < TOL:
+            if max_delta_data < TOL * max(np.abs(data_extrema)):
                 # (this cannot trigger on first iteration, due to
                 # initialization of old_extrema)
                 if verbose:
-- 
2.43.0


From 1440732f6bc09fac4f3552e4cff39fbebca19d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 21/24] fix: allow a hard cutoff (taper_width=0) in the spin
 filter

---
 gw_eccentricity/spin_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 1ae3066..5342045 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -367,8 +367,9 @@ def _make_lowpass_mask(frequencies, f_cutoff, taper_width):
     f_high = f_cutoff * (1 + taper_width)
 
     mask = np.ones(len(frequencies))
-    # cosine taper in the transition band [f_low, f_high]
-    taper_region = np.logical_and(frequencies >= f_low, frequencies <= f_high)
+    # cosine taper in the transition band (f_low, f_high], which is empty for
+    # a hard cutoff, i.e., taper_width = 0. The mask at f_low is 1.
+    taper_region = np.logical_and(frequencies > f_low, frequencies <= f_high)
     mask[taper_region] = 0.5 * (
         1 + np.cos(np.pi * (frequencies[taper_region] - f_low) / (f_high - f_low))
     )
-- 
2.43.0


From 5fdb280b783f52c87863591aabd3d30b9d4d919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 22/24] fix: allow filtering without zero-padding
 (padding_length=0)

---
 gw_eccentricity/spin_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 5342045..6275753 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -585,7 +585,8 @@ class FilterSpinInducedOscillations:
         # fd[frequencies > f_cutoff] = 0
         mask = _make_lowpass_mask(frequencies, f_cutoff, taper_width)
         residual_smooth = np.fft.irfft(
-                fd * mask, n=len(residual_no_window))[padding_length:-padding_length]
+                fd * mask, n=len(residual_no_window))[
+                    padding_length:padding_length + len(residual)]
 
         return FilterSegmentResult(
             t=t_seg,
-- 
2.43.0


From 7b82c00cff8d3e0209479e9ab26d5dee83677809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 23/24] fix: do not require mode asymmetry to measure a
 precessing system

---
 gw_eccentricity/spin_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 6275753..44a6cb4 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -181,6 +181,10 @@ def check_filter_requirement(t, data_copr_22, data_copr_2m2,
             f"Unknown data type: {data_type}. Allowed types are: ['omega', 'amp']")
     combination_sign = 1 if data_type == "amp" else -1
     asymmetry = 0.5 * (data_copr_22 - combination_sign * data_copr_2m2)
+    # Without any mode asymmetry, e.g., for a nonprecessing system, there are
+    # no spin-induced oscillations to filter.
+    if not np.any(asymmetry):
+        return False
     secular_trend = _pn_fit_for_secular_trend(t, data_copr_22, data_type, t_merger)
     residual = data_copr_22 - secular_trend(t)
 
-- 
2.43.0


From 1059e7a9162c45c2d5a83d4134e57c172acc6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:52 +0000
Subject: [PATCH 24/24] fix: wrap the mean anomaly difference when comparing
 two methods

Unwrapping the two arrays separately leaves an offset of 2 pi in all the
errors when one of them starts just below 2 pi and the other at 0.
---
 gw_eccentricity/compare_methods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/compare_methods.py b/gw_eccentricity/compare_methods.py
index 4717f95..af084f4 100644
--- a/gw_eccentricity/compare_methods.py
+++ b/gw_eccentricity/compare_methods.py
@@ -92,10 +92,10 @@ def compute_errors_between_methods(gwecc_obj1,
     # Compute errors in mean anomaly at common tref_out
     mean_ano_ref_1_common = gwecc_obj1.mean_anomaly[common_idx1]
     mean_ano_ref_2_common = gwecc_obj2.mean_anomaly[common_idx2]
-    # We need to unwrap the mean anomaly since zero and
+    # We need to wrap the difference to [-pi, pi) since zero and
     # 2pi should be treated as the same and hence should give zero errors.
     mean_ano_errors = np.abs(
-        np.unwrap(mean_ano_ref_1_common)
-        - np.unwrap(mean_ano_ref_2_common))
+        (mean_ano_ref_1_common - mean_ano_ref_2_common + np.pi)
+        % (2 * np.pi) - np.pi)
     return tref_out_1_common, ecc_errors, mean_ano_errors, ecc_ref_1_common,\
         ecc_ref_2_common, mean_ano_ref_1_common, mean_ano_ref_2_common
-- 
2.43.0

