From b292d815d6e00d6700cc8591b855a06e5fdb019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:44 +0000
Subject: [PATCH 01/19] fix: keep frequency-derivative columns last in sine
 weight calibration

The fine frequency search read its corrections and the quadrature
coefficient from the wrong positions of the solution vector, so an
automatic or forced search drifted away from the true frequency and
returned wrong weights, references and errors. Multi-dataset solutions
also used a unity coefficient and the first DC term for every dataset.
---
 .../adctoolbox/calibration/_lstsq_solver.py   | 40 ++++++++-----------
 .../adctoolbox/calibration/_post_process.py   | 29 ++++++--------
 .../calibration/calibrate_weight_sine.py      |  2 +-
 3 files changed, 30 insertions(+), 41 deletions(-)

diff --git a/python/src/adctoolbox/calibration/_lstsq_solver.py b/python/src/adctoolbox/calibration/_lstsq_solver.py
index ce951da..e229cef 100644
--- a/python/src/adctoolbox/calibration/_lstsq_solver.py
+++ b/python/src/adctoolbox/calibration/_lstsq_solver.py
@@ -70,21 +70,20 @@ def _dual_basis_lstsq(
     Core dual-basis solver: tries both cosine=1 and sine=1 assumptions.
     Returns the solution with the minimum residual.
     """
-    # Combine extra columns (Offsets and potentially Frequency Derivatives)
-    extra_cols = [offset_matrix]
-    if deriv_matrix is not None:
-        extra_cols.append(deriv_matrix)
+    # Frequency derivatives (if any) go last so the layout of the other
+    # coefficients does not depend on them
+    extra_cols = [] if deriv_matrix is None else [deriv_matrix]
 
     # Assumption 1: Cosine fundamental is unity
-    # Layout: [Weights, Offsets, (Derivs), Cos_harmonics[1:], Sin_harmonics[:]]
-    A1 = np.column_stack([A_common, *extra_cols, cos_basis[:, 1:], sin_basis])
+    # Layout: [Weights, Offsets, Cos_harmonics[1:], Sin_harmonics[:], (Derivs)]
+    A1 = np.column_stack([A_common, offset_matrix, cos_basis[:, 1:], sin_basis, *extra_cols])
     b1 = -cos_basis[:, 0]
     coeffs1, _, _, _ = lstsq(A1, b1)
     err1 = np.linalg.norm(A1 @ coeffs1 - b1)
 
     # Assumption 2: Sine fundamental is unity
-    # Layout: [Weights, Offsets, (Derivs), Sin_harmonics[1:], Cos_harmonics[:]]
-    A2 = np.column_stack([A_common, *extra_cols, sin_basis[:, 1:], cos_basis])
+    # Layout: [Weights, Offsets, Sin_harmonics[1:], Cos_harmonics[:], (Derivs)]
+    A2 = np.column_stack([A_common, offset_matrix, sin_basis[:, 1:], cos_basis, *extra_cols])
     b2 = -sin_basis[:, 0]
     coeffs2, _, _, _ = lstsq(A2, b2)
     err2 = np.linalg.norm(A2 @ coeffs2 - b2)
@@ -282,24 +281,17 @@ def _solve_weights_searching_freq(
             n_samples_k = segment_lengths[k]
 
             # For dataset k, find its harmonics in the coefficient vector
+            # Only the very first column of the unity side is implicit (1.0)
+            harmonics_end = harmonic_start + unity_harmonics_size
+            unity_coeffs = np.concatenate([[1.0], coeffs_temp[harmonic_start:harmonics_end]])
+            unity_coeffs_k = unity_coeffs[k * harmonic_order : (k + 1) * harmonic_order]
+            other_idx = harmonics_end + k * harmonic_order
+            other_coeffs_k = coeffs_temp[other_idx : other_idx + harmonic_order]
+
             if basis_choice_temp == 0:
-                # Cosine is unity: [weights, DC, cos[1:], sin[:]]
-                # cos[0] is implicit 1, cos[1:] are in coeffs
-                # For dataset k, cos harmonics are at columns k*harmonic_order : (k+1)*harmonic_order
-                h_idx = harmonic_start + k * (harmonic_order - 1)
-                cos_coeffs_k = np.concatenate([[1.0], coeffs_temp[h_idx : h_idx + harmonic_order - 1]])
-
-                # Sin coefficients start after cos
-                sin_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
-                sin_coeffs_k = coeffs_temp[sin_idx : sin_idx + harmonic_order]
+                cos_coeffs_k, sin_coeffs_k = unity_coeffs_k, other_coeffs_k
             else:
-                # Sine is unity: [weights, DC, sin[1:], cos[:]]
-                sin_idx = harmonic_start + (k * harmonic_order - 1)
-                sin_coeffs_k = coeffs_temp[sin_idx : sin_idx + harmonic_order]
-
-                # Cos coefficients start after sin
-                cos_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
-                cos_coeffs_k = coeffs_temp[cos_idx : cos_idx + harmonic_order]
+                sin_coeffs_k, cos_coeffs_k = unity_coeffs_k, other_coeffs_k
 
             # Build coefficient matrices
             cos_coeffs_weighted = cos_coeffs_k * harmonic_orders
diff --git a/python/src/adctoolbox/calibration/_post_process.py b/python/src/adctoolbox/calibration/_post_process.py
index 66d43ae..8e0cedd 100644
--- a/python/src/adctoolbox/calibration/_post_process.py
+++ b/python/src/adctoolbox/calibration/_post_process.py
@@ -60,7 +60,8 @@ def _post_process(
         )
         
         # Performance metrics
-        err_k = sig_k - dc_offset - ref_k
+        dc_offset_k = -solution_vector[bit_width_effective + k] / norm_factor
+        err_k = sig_k - dc_offset_k - ref_k
         p_sig = np.mean(ref_k**2)
         p_noise = np.mean(err_k**2)
         sndr_k = 10 * np.log10(p_sig / p_noise) if p_noise > 0 else 200.0 # Cap max SNR
@@ -115,23 +116,19 @@ def _reconstruct_sine_k(
     # The size of the first half of harmonic columns (where one fund is unity)
     unity_side_size = num_harm_total - 1 
 
+    # Only the very first column of the unity side is implicit (1.0)
+    harmonics_end = harm_start + unity_side_size
+    unity_coeffs = np.concatenate([[1.0], solution_vector[harm_start:harmonics_end]])
+    unity_coeffs_k = unity_coeffs[k * harmonic_order : (k + 1) * harmonic_order]
+
+    # The quadrature side has all its coefficients, after the unity_side_size block
+    other_idx = harmonics_end + k * harmonic_order
+    other_coeffs_k = solution_vector[other_idx : other_idx + harmonic_order]
+
     if basis_choice == 0:  # Cosine is unity
-        # Cosine coeffs: first one is implicit 1.0, others are in solution_vector
-        # Indices for dataset k: harm_start + k*(H-1) : harm_start + (k+1)*(H-1)
-        h_idx = harm_start + k * (harmonic_order - 1)
-        cos_coeffs_k = np.concatenate([[1.0], solution_vector[h_idx : h_idx + harmonic_order - 1]])
-        
-        # Sine coeffs: all are in solution_vector, after the unity_side_size block
-        sin_idx = harm_start + unity_side_size + k * harmonic_order
-        sin_coeffs_k = solution_vector[sin_idx : sin_idx + harmonic_order]
+        cos_coeffs_k, sin_coeffs_k = unity_coeffs_k, other_coeffs_k
     else:  # Sine is unity
-        # Sine coeffs: first one is implicit 1.0
-        h_idx = harm_start + k * (harmonic_order - 1)
-        sin_coeffs_k = np.concatenate([[1.0], solution_vector[h_idx : h_idx + harmonic_order - 1]])
-        
-        # Cosine coeffs
-        cos_idx = harm_start + unity_side_size + k * harmonic_order
-        cos_coeffs_k = solution_vector[cos_idx : cos_idx + harmonic_order]
+        sin_coeffs_k, cos_coeffs_k = unity_coeffs_k, other_coeffs_k
 
     # Reference = -(Basis_Cos * Coeffs_Cos + Basis_Sin * Coeffs_Sin) / Norm
     return -(cos_basis_k @ cos_coeffs_k + sin_basis_k @ sin_coeffs_k) / norm_factor
diff --git a/python/src/adctoolbox/calibration/calibrate_weight_sine.py b/python/src/adctoolbox/calibration/calibrate_weight_sine.py
index 0e7387a..754c2a9 100644
--- a/python/src/adctoolbox/calibration/calibrate_weight_sine.py
+++ b/python/src/adctoolbox/calibration/calibrate_weight_sine.py
@@ -148,7 +148,7 @@ def calibrate_weight_sine(
 
     num_datasets = len(bits_segments)
     num_harm_total = num_datasets * harmonic_order
-    idx_quadrature = bit_width_effective + num_harm_total
+    idx_quadrature = bit_width_effective + num_datasets + num_harm_total - 1
     norm_factor = np.sqrt(1.0 + coeffs[idx_quadrature]**2)
 
     w_phys_effective = _recover_columns_for_conditioning(
-- 
2.43.0


From 4237ffef2bf605c0f4b6c1e470eca051800a8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:14 +0000
Subject: [PATCH 02/19] fix: keep the top bin's mirror when brickwall-filtering
 odd-length records

---
 python/src/adctoolbox/spectrum/extract_freq_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/extract_freq_components.py b/python/src/adctoolbox/spectrum/extract_freq_components.py
index 6ee06a3..960a8b5 100644
--- a/python/src/adctoolbox/spectrum/extract_freq_components.py
+++ b/python/src/adctoolbox/spectrum/extract_freq_components.py
@@ -63,7 +63,7 @@ def extract_freq_components(din, bands):
 
         # Set negative frequency bins (Hermitian symmetry)
         # Exclude DC (0) and Nyquist (N/2) to avoid double-setting
-        valid = ids[(ids > 0) & (ids < N // 2)]
+        valid = ids[(ids > 0) & (ids < N / 2)]
         mask[N - valid] = 1
 
     # Apply mask to all columns
-- 
2.43.0


From f685602f1d4c493b2a34311b90ec848553e04acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:14 +0000
Subject: [PATCH 03/19] fix: fold fractional bins at half the record length so
 harmonics stay in range for odd N

---
 python/src/adctoolbox/fundamentals/frequency.py | 2 +-
 python/src/adctoolbox/spectrum/_harmonics.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/adctoolbox/fundamentals/frequency.py b/python/src/adctoolbox/fundamentals/frequency.py
index ddabead..7b5cf87 100644
--- a/python/src/adctoolbox/fundamentals/frequency.py
+++ b/python/src/adctoolbox/fundamentals/frequency.py
@@ -162,7 +162,7 @@ def fold_bin_to_nyquist(bin_idx: float, n_fft: int) -> float:
     bin_idx = bin_idx % n_fft
 
     # For real signals, bins > n_fft/2 are mirrored
-    if bin_idx > n_fft // 2:
+    if bin_idx > n_fft / 2:
         bin_idx = n_fft - bin_idx
 
     return bin_idx
diff --git a/python/src/adctoolbox/spectrum/_harmonics.py b/python/src/adctoolbox/spectrum/_harmonics.py
index 2f96be5..2889f60 100644
--- a/python/src/adctoolbox/spectrum/_harmonics.py
+++ b/python/src/adctoolbox/spectrum/_harmonics.py
@@ -46,7 +46,7 @@ def _locate_harmonic_bins(
         # Apply aliasing using fold_bin_to_nyquist
         aliased_bin = fold_bin_to_nyquist(harmonic_bin, n_fft)
 
-        harmonic_bins[h - 2] = round(aliased_bin)
+        harmonic_bins[h - 2] = min(round(aliased_bin), n_fft // 2)
 
     return harmonic_bins
 
-- 
2.43.0


From 096d381067b0c78f99d64dc844ee58f9ab8ec783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:14 +0000
Subject: [PATCH 04/19] fix: derive spectrum full scale without integer
 overflow for narrow integer samples

---
 python/src/adctoolbox/spectrum/_prepare_fft_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/_prepare_fft_input.py b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
index 1d1677b..ee1b9c7 100644
--- a/python/src/adctoolbox/spectrum/_prepare_fft_input.py
+++ b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
@@ -44,7 +44,7 @@ def _prepare_fft_input(
 
     # Determine peak amplitude for normalization
     if max_scale_range is None:
-        peak_amplitude = (np.max(data) - np.min(data)) / 2
+        peak_amplitude = (float(np.max(data)) - float(np.min(data))) / 2
     elif isinstance(max_scale_range, (list, tuple)):
         if len(max_scale_range) != 2:
             raise ValueError(f"Range tuple/list must have 2 elements, got {len(max_scale_range)}")
-- 
2.43.0


From cf62d7f29c5ea81a3acd9f17141dd35f01ca2214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:14 +0000
Subject: [PATCH 05/19] fix: count all-ones residues as overflow despite
 floating-point rounding

---
 python/src/adctoolbox/dout/analyze_overflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/adctoolbox/dout/analyze_overflow.py b/python/src/adctoolbox/dout/analyze_overflow.py
index 5257a5b..49b012c 100644
--- a/python/src/adctoolbox/dout/analyze_overflow.py
+++ b/python/src/adctoolbox/dout/analyze_overflow.py
@@ -81,6 +81,8 @@ def analyze_overflow(
 
         # Normalize by sum of remaining weights
         sum_weight = np.sum(weight[ii:])
+        # An all-ones segment must normalize to exactly 1 despite rounding
+        tmp = np.where(np.isclose(tmp, sum_weight, rtol=1e-12, atol=0), sum_weight, tmp)
         data_decom[:, ii] = tmp / sum_weight
         range_min[ii] = np.min(tmp) / sum_weight
         range_max[ii] = np.max(tmp) / sum_weight
-- 
2.43.0


From 962db89dda519fdd6ace267ed5697644ffe6d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 06/19] fix: leave the caller's figures alone when error
 spectra run without plotting

---
 .../adctoolbox/aout/analyze_error_envelope_spectrum.py   | 9 +--------
 python/src/adctoolbox/aout/analyze_error_spectrum.py     | 9 +--------
 2 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
index f60e6fb..76c08a8 100644
--- a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
@@ -100,14 +100,7 @@ def analyze_error_envelope_spectrum(signal, fs=1, frequency=None, create_plot: b
             plt.gca().set_title(title, fontsize=10, fontweight='bold')
     else:
         # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+        result = analyze_spectrum(env, fs=fs, create_plot=False, show_label=False, max_harmonic=5)
 
     # Add error signal and envelope to result
     result['error_signal'] = error_signal
diff --git a/python/src/adctoolbox/aout/analyze_error_spectrum.py b/python/src/adctoolbox/aout/analyze_error_spectrum.py
index 81819f5..0430d8d 100644
--- a/python/src/adctoolbox/aout/analyze_error_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_spectrum.py
@@ -89,14 +89,7 @@ def analyze_error_spectrum(signal, fs=1, frequency=None, create_plot: bool = Tru
             plt.gca().set_title(title, fontsize=10, fontweight='bold')
     else:
         # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+        result = analyze_spectrum(error_signal, fs=fs, create_plot=False, show_label=False, max_harmonic=5)
 
     # Add error signal to results
     result['error_signal'] = error_signal
-- 
2.43.0


From 6522912ebfdd7cf872b52370731bc6232d430b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 07/19] fix: avoid integer overflow when inferring code span
 from narrow integer samples

---
 python/src/adctoolbox/aout/analyze_error_pdf.py     | 2 +-
 python/src/adctoolbox/aout/compute_inl_from_sine.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_pdf.py b/python/src/adctoolbox/aout/analyze_error_pdf.py
index ae123bf..4c00dff 100644
--- a/python/src/adctoolbox/aout/analyze_error_pdf.py
+++ b/python/src/adctoolbox/aout/analyze_error_pdf.py
@@ -74,7 +74,7 @@ def analyze_error_pdf(signal, resolution=12, full_scale=None, frequency=None, cr
 
     # Infer full_scale from signal if not provided
     if full_scale is None:
-        full_scale = np.max(signal) - np.min(signal)
+        full_scale = float(np.max(signal)) - float(np.min(signal))
 
     # Convert error to LSB units
     lsb = full_scale / (2**resolution)
diff --git a/python/src/adctoolbox/aout/compute_inl_from_sine.py b/python/src/adctoolbox/aout/compute_inl_from_sine.py
index 6eeca89..a6e947b 100644
--- a/python/src/adctoolbox/aout/compute_inl_from_sine.py
+++ b/python/src/adctoolbox/aout/compute_inl_from_sine.py
@@ -37,8 +37,8 @@ def compute_inl_from_sine(
     """
     data = np.asarray(data).flatten()
 
-    data_min = np.min(data)
-    data_max = np.max(data)
+    data_min = float(np.min(data))
+    data_max = float(np.max(data))
     span = data_max - data_min
 
     # --- 1. Auto-Detect Mode (Voltage vs Code) ---
-- 
2.43.0


From d5c64faa933e86d714eb4c25541cba65283d6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 08/19] fix: accept boolean bit matrices with stuck bits in
 weight calibration

---
 python/src/adctoolbox/calibration/_patch_rank_deficiency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/calibration/_patch_rank_deficiency.py b/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
index ede1baf..14cb7b9 100644
--- a/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
+++ b/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
@@ -59,7 +59,7 @@ def _patch_rank_deficiency(
 
         # Case A: Constant column = dead bit, drop it
         # bit_to_col_map stays -1, bit_weight_ratios stays 0, eff_col_to_bit unchanged
-        if np.ptp(col) < 1e-15:
+        if np.ptp(col.astype(float)) < 1e-15:
             if verbose >= 1:
                 print(f"[DEBUG] Bit [{bit_idx}] is constant (dead bit). Dropping this column.")
             continue
-- 
2.43.0


From d5e84ea9671ccc973b93c5afd22bea6dea467578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 09/19] fix: raise the documented ValueError when spur
 prediction has no input frequency

---
 python/src/adctoolbox/timeinterleave/predict_spurs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/timeinterleave/predict_spurs.py b/python/src/adctoolbox/timeinterleave/predict_spurs.py
index 5138499..8535398 100644
--- a/python/src/adctoolbox/timeinterleave/predict_spurs.py
+++ b/python/src/adctoolbox/timeinterleave/predict_spurs.py
@@ -60,7 +60,7 @@ def predict_spurs(
     A_in = float(params.get("A", 1.0))
 
     if fin is None:
-        fin = float(params.get("fin"))
+        fin = params.get("fin")
         if fin is None:
             raise ValueError("fin must be provided via argument or params['fin']")
 
-- 
2.43.0


From 4a592f9f6cd81f553ecde47281d0c0c0789b3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 10/19] fix: import dB conversion from its current module in
 Vpp helper

---
 python/src/adctoolbox/utils/vpp_for_target_dbfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/utils/vpp_for_target_dbfs.py b/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
index 6ffade7..83dabe8 100644
--- a/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
+++ b/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
@@ -5,7 +5,7 @@ Calculates the required input amplitude (Vpp) to achieve a specific target
 signal level (dBFS). Useful for automated instrument control loops.
 """
 
-from adctoolbox.common.unit_conversions import db_to_mag
+from adctoolbox.fundamentals.units import db_to_mag
 
 def vpp_for_target_dbfs(vpp_current: float, signal_db_measured: float, signal_db_target: float = -0.5) -> float:
     """
-- 
2.43.0


From 7df8ff1501a0f97ae62794929a4d349fc2b49924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 11/19] fix: refuse to force-install a bundled skill onto its
 own source

---
 python/src/adctoolbox/skill_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index affd571..9c4a87e 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -162,6 +162,10 @@ def install_bundled_skills(
                     f"Destination already exists: {target_dir}. "
                     "Use --force to replace it."
                 )
+            if not target_dir.is_symlink() and target_dir.resolve() == source_dir.resolve():
+                raise FileExistsError(
+                    f"Destination is the bundled skill itself: {target_dir}."
+                )
             if target_dir.is_symlink() or target_dir.is_file():
                 target_dir.unlink()
             else:
-- 
2.43.0


From c01ff283bf1c246130558272f32b856c4f26beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 12/19] fix: report skills out of sync when an entry changes
 type

---
 python/src/adctoolbox/skill_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index 9c4a87e..b04d366 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -75,7 +75,7 @@ def bundled_skill_dir(skill_name: str) -> Path:
 def _dirs_equal(left: Path, right: Path) -> bool:
     """Return True when two small directory trees have identical file content."""
     cmp = filecmp.dircmp(left, right)
-    if cmp.left_only or cmp.right_only or cmp.funny_files:
+    if cmp.left_only or cmp.right_only or cmp.funny_files or cmp.common_funny:
         return False
     for name in cmp.common_files:
         if not filecmp.cmp(left / name, right / name, shallow=False):
-- 
2.43.0


From 5d3e36252f3ee9c60d6f6ffd5ca7ff234e1b46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:25 +0000
Subject: [PATCH 13/19] fix: rescale frequency steps when the unity basis
 switches during refinement

---
 python/src/adctoolbox/calibration/_lstsq_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/adctoolbox/calibration/_lstsq_solver.py b/python/src/adctoolbox/calibration/_lstsq_solver.py
index e229cef..e85c969 100644
--- a/python/src/adctoolbox/calibration/_lstsq_solver.py
+++ b/python/src/adctoolbox/calibration/_lstsq_solver.py
@@ -330,6 +330,9 @@ def _solve_weights_searching_freq(
 
         # Extract frequency corrections (last num_datasets elements)
         delta_f_raw = coeffs[-num_datasets:]
+        if basis_choice != basis_choice_temp:
+            # Derivative columns were scaled for the other unity basis
+            delta_f_raw = delta_f_raw * coeffs_temp[harmonic_start + unity_harmonics_size]
         delta_f_array = delta_f_raw * learning_rate / segment_lengths
 
         # Compute relative error using first harmonic magnitude for normalization
-- 
2.43.0


From 14bd8a86c1f272241e51d21e7a83473a994ac4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:29 +0000
Subject: [PATCH 14/19] fix: order residue range limits when a segment's
 weights sum to a negative value

---
 python/src/adctoolbox/dout/analyze_overflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/adctoolbox/dout/analyze_overflow.py b/python/src/adctoolbox/dout/analyze_overflow.py
index 49b012c..0b500df 100644
--- a/python/src/adctoolbox/dout/analyze_overflow.py
+++ b/python/src/adctoolbox/dout/analyze_overflow.py
@@ -84,8 +84,8 @@ def analyze_overflow(
         # An all-ones segment must normalize to exactly 1 despite rounding
         tmp = np.where(np.isclose(tmp, sum_weight, rtol=1e-12, atol=0), sum_weight, tmp)
         data_decom[:, ii] = tmp / sum_weight
-        range_min[ii] = np.min(tmp) / sum_weight
-        range_max[ii] = np.max(tmp) / sum_weight
+        range_min[ii] = np.min(data_decom[:, ii])
+        range_max[ii] = np.max(data_decom[:, ii])
 
         # Calculate overflow percentages
         ovf_percent_zero[ii] = np.sum(data_decom[:, ii] <= 0) / N * 100
-- 
2.43.0


From 03c3d730103cca4efaed4b4e3af6830f0fe02801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:19 +0000
Subject: [PATCH 15/19] fix: show input frequencies between 1 Hz and 1 kHz in
 hertz on the spectrum plot

---
 python/src/adctoolbox/spectrum/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/plot_spectrum.py b/python/src/adctoolbox/spectrum/plot_spectrum.py
index 8eee64c..b14d3cb 100644
--- a/python/src/adctoolbox/spectrum/plot_spectrum.py
+++ b/python/src/adctoolbox/spectrum/plot_spectrum.py
@@ -249,7 +249,7 @@ def plot_spectrum(compute_results, show_title=True, show_label=True, plot_harmon
         if Fin >= 1e9: txt_fin = f'{Fin/1e9:.1f}G'
         elif Fin >= 1e6: txt_fin = f'{Fin/1e6:.1f}M'
         elif Fin >= 1e3: txt_fin = f'{Fin/1e3:.1f}K'
-        elif Fin >= 1: txt_fin = f'{Fin/1e3:.1f}'  # Matches original logic
+        elif Fin >= 1: txt_fin = f'{Fin:.1f}'
         else: txt_fin = f'{Fin:.3f}'
 
         snr_text = f'{snr_dbc:.2f} dB' if np.isfinite(snr_dbc) else 'N/A'
-- 
2.43.0


From 2d74027b905a25eddd06792c10a90cfe788912bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:44 +0000
Subject: [PATCH 16/19] fix: measure the range of narrow integer samples
 without wrap-around when validating analog data

---
 python/src/adctoolbox/fundamentals/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/validate.py b/python/src/adctoolbox/fundamentals/validate.py
index cdac8cb..39f15ee 100644
--- a/python/src/adctoolbox/fundamentals/validate.py
+++ b/python/src/adctoolbox/fundamentals/validate.py
@@ -58,7 +58,7 @@ def validate_aout_data(aout_data, min_samples=100):
         raise ValueError(f"Insufficient analog samples ({n_samples}), need at least {min_samples}.")
 
     # Step 3: Physics/Signal Checks
-    data_range = np.ptp(data) # Peak-to-peak (max - min)
+    data_range = float(np.max(data)) - float(np.min(data))  # Peak-to-peak (in float: narrow integers would wrap)
     
     if data_range == 0:
         raise ValueError("Analog data is constant (flatline). Check connections.")
-- 
2.43.0


From b267d75a7c8a1a350915e7a08a4ddb043202914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:00 +0000
Subject: [PATCH 17/19] fix: accept boolean bit matrices when validating
 digital data

---
 python/src/adctoolbox/fundamentals/validate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/adctoolbox/fundamentals/validate.py b/python/src/adctoolbox/fundamentals/validate.py
index 39f15ee..c8653ca 100644
--- a/python/src/adctoolbox/fundamentals/validate.py
+++ b/python/src/adctoolbox/fundamentals/validate.py
@@ -73,8 +73,9 @@ def validate_dout_data(bits, min_samples=100):
     Checks: Binary (0/1), Dimensions, Stuck Bits.
     Expects: (N_samples, N_bits) matrix.
     """
-    # Step 1: Basic checks (Reused)
-    data = _validate_basic_integrity(bits, name="Digital Data")
+    # Step 1: Basic checks (Reused); boolean bits are allowed
+    bits = np.asarray(bits)
+    data = _validate_basic_integrity(bits.astype(np.uint8) if bits.dtype == bool else bits, name="Digital Data")
 
     # Step 2: Dimension Check
     if data.ndim != 2:
-- 
2.43.0


From 7788255fc7c76477d4e64b6811783ef9fc98ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:06 +0000
Subject: [PATCH 18/19] fix: plot performance versus oversampling ratio when a
 harmonic folds onto DC

---
 python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py b/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
index 96ea5b3..71191d6 100644
--- a/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
+++ b/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
@@ -143,6 +143,8 @@ def sweep_performance_vs_osr(
 
         for h in range(2, harmonic + 1):
             f_h = fold_frequency_to_nyquist(freq * h, 1.0)
+            if f_h <= 0:  # harmonic folds onto DC: no OSR excludes it
+                continue
             osr_h = 1.0 / (2 * f_h)
             if min(osr) <= osr_h <= max(osr):
                 ax_main.axvline(osr_h, color='k', linestyle='--', linewidth=0.5)
-- 
2.43.0


From d18dea55d20f2dbafb1621d58a49dd95e43b080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:20 +0000
Subject: [PATCH 19/19] fix: label the circles of the polar spectrum with the
 level they stand for

---
 python/src/adctoolbox/spectrum/plot_spectrum_polar.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/src/adctoolbox/spectrum/plot_spectrum_polar.py b/python/src/adctoolbox/spectrum/plot_spectrum_polar.py
index 01c5761..0ea5e90 100644
--- a/python/src/adctoolbox/spectrum/plot_spectrum_polar.py
+++ b/python/src/adctoolbox/spectrum/plot_spectrum_polar.py
@@ -65,15 +65,14 @@ def plot_spectrum_polar(analysis_results, show_metrics=True, harmonic=5, fixed_r
     # Set radial axis
     if fixed_radial_range is not None:
         max_radius = fixed_radial_range
-        minR_dB_rounded = np.round(-fixed_radial_range / 10) * 10
     else:
         max_radius = -minR_dB
-        minR_dB_rounded = np.round(minR_dB / 10) * 10
 
-    tick_values = np.arange(0, max_radius + 1, 10)
+    # Ticks sit at whole tens of dB; the level at a radius is radius - max_radius
+    tick_values = np.arange(max_radius % 10, max_radius + 1, 10)
     ax.set_ylim([0, max_radius])
     ax.set_rticks(tick_values)
-    tick_labels = [str(int(minR_dB_rounded + val)) for val in tick_values]
+    tick_labels = [str(int(np.round(val - max_radius))) for val in tick_values]
     ax.set_yticklabels(tick_labels, fontsize=10)
 
     # Plot spectrum
-- 
2.43.0

