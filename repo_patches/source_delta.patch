From aaacd3e80fff05378185eefebc07ef3f40e7f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:54 +0000
Subject: [PATCH 01/23] fix: read the frequency correction from the right
 columns in weight calibration search

The fine frequency search took its frequency step from a sine/cosine
coefficient because the derivative columns were not last in the solved
system. The returned frequency drifted by up to several percent and the
weights were normalised by the wrong coefficient.
Put the derivative columns last and pick each dataset's harmonic
coefficients from their actual position.
---
 .../adctoolbox/calibration/_lstsq_solver.py   | 42 ++++++++-----------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/python/src/adctoolbox/calibration/_lstsq_solver.py b/python/src/adctoolbox/calibration/_lstsq_solver.py
index ce951da..038b664 100644
--- a/python/src/adctoolbox/calibration/_lstsq_solver.py
+++ b/python/src/adctoolbox/calibration/_lstsq_solver.py
@@ -70,21 +70,19 @@ def _dual_basis_lstsq(
     Core dual-basis solver: tries both cosine=1 and sine=1 assumptions.
     Returns the solution with the minimum residual.
     """
-    # Combine extra columns (Offsets and potentially Frequency Derivatives)
-    extra_cols = [offset_matrix]
-    if deriv_matrix is not None:
-        extra_cols.append(deriv_matrix)
+    # Frequency derivative columns (if any) go last so callers can slice them off
+    deriv_cols = [] if deriv_matrix is None else [deriv_matrix]
 
     # Assumption 1: Cosine fundamental is unity
-    # Layout: [Weights, Offsets, (Derivs), Cos_harmonics[1:], Sin_harmonics[:]]
-    A1 = np.column_stack([A_common, *extra_cols, cos_basis[:, 1:], sin_basis])
+    # Layout: [Weights, Offsets, Cos_harmonics[1:], Sin_harmonics[:], (Derivs)]
+    A1 = np.column_stack([A_common, offset_matrix, cos_basis[:, 1:], sin_basis, *deriv_cols])
     b1 = -cos_basis[:, 0]
     coeffs1, _, _, _ = lstsq(A1, b1)
     err1 = np.linalg.norm(A1 @ coeffs1 - b1)
 
     # Assumption 2: Sine fundamental is unity
-    # Layout: [Weights, Offsets, (Derivs), Sin_harmonics[1:], Cos_harmonics[:]]
-    A2 = np.column_stack([A_common, *extra_cols, sin_basis[:, 1:], cos_basis])
+    # Layout: [Weights, Offsets, Sin_harmonics[1:], Cos_harmonics[:], (Derivs)]
+    A2 = np.column_stack([A_common, offset_matrix, sin_basis[:, 1:], cos_basis, *deriv_cols])
     b2 = -sin_basis[:, 0]
     coeffs2, _, _, _ = lstsq(A2, b2)
     err2 = np.linalg.norm(A2 @ coeffs2 - b2)
@@ -281,25 +279,19 @@ def _solve_weights_searching_freq(
             row_end = row_start + segment_lengths[k]            
             n_samples_k = segment_lengths[k]
 
-            # For dataset k, find its harmonics in the coefficient vector
+            # For dataset k, find its harmonics in the coefficient vector.
+            # Only the first dataset's fundamental is the implicit 1; every
+            # other harmonic of every dataset has its own coefficient.
+            unity_coeffs = np.concatenate(
+                [[1.0], coeffs_temp[harmonic_start : harmonic_start + unity_harmonics_size]]
+            )[k * harmonic_order : (k + 1) * harmonic_order]
+            other_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
+            other_coeffs = coeffs_temp[other_idx : other_idx + harmonic_order]
+
             if basis_choice_temp == 0:
-                # Cosine is unity: [weights, DC, cos[1:], sin[:]]
-                # cos[0] is implicit 1, cos[1:] are in coeffs
-                # For dataset k, cos harmonics are at columns k*harmonic_order : (k+1)*harmonic_order
-                h_idx = harmonic_start + k * (harmonic_order - 1)
-                cos_coeffs_k = np.concatenate([[1.0], coeffs_temp[h_idx : h_idx + harmonic_order - 1]])
-
-                # Sin coefficients start after cos
-                sin_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
-                sin_coeffs_k = coeffs_temp[sin_idx : sin_idx + harmonic_order]
+                cos_coeffs_k, sin_coeffs_k = unity_coeffs, other_coeffs
             else:
-                # Sine is unity: [weights, DC, sin[1:], cos[:]]
-                sin_idx = harmonic_start + (k * harmonic_order - 1)
-                sin_coeffs_k = coeffs_temp[sin_idx : sin_idx + harmonic_order]
-
-                # Cos coefficients start after sin
-                cos_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
-                cos_coeffs_k = coeffs_temp[cos_idx : cos_idx + harmonic_order]
+                sin_coeffs_k, cos_coeffs_k = unity_coeffs, other_coeffs
 
             # Build coefficient matrices
             cos_coeffs_weighted = cos_coeffs_k * harmonic_orders
-- 
2.43.0


From a207f991066618ea8d00994f0f981d38418a6a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:28 +0000
Subject: [PATCH 02/23] fix: use each dataset's own coefficients in
 multi-dataset weight calibration

With two or more datasets the sine amplitude used for normalisation and
the reference sines were read from the wrong entries of the solution, and
every residual was taken against the first dataset's offset.
---
 .../adctoolbox/calibration/_post_process.py   | 30 +++++++++----------
 .../calibration/calibrate_weight_sine.py      |  2 +-
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/python/src/adctoolbox/calibration/_post_process.py b/python/src/adctoolbox/calibration/_post_process.py
index 66d43ae..1436a72 100644
--- a/python/src/adctoolbox/calibration/_post_process.py
+++ b/python/src/adctoolbox/calibration/_post_process.py
@@ -60,7 +60,8 @@ def _post_process(
         )
         
         # Performance metrics
-        err_k = sig_k - dc_offset - ref_k
+        offset_k = -solution_vector[bit_width_effective + k] / norm_factor
+        err_k = sig_k - offset_k - ref_k
         p_sig = np.mean(ref_k**2)
         p_noise = np.mean(err_k**2)
         sndr_k = 10 * np.log10(p_sig / p_noise) if p_noise > 0 else 200.0 # Cap max SNR
@@ -115,23 +116,20 @@ def _reconstruct_sine_k(
     # The size of the first half of harmonic columns (where one fund is unity)
     unity_side_size = num_harm_total - 1 
 
+    # Unity side: only the first dataset's fundamental is the implicit 1.0, every
+    # other harmonic of every dataset has its own entry in solution_vector
+    unity_coeffs = np.concatenate(
+        [[1.0], solution_vector[harm_start : harm_start + unity_side_size]]
+    )[k * harmonic_order : (k + 1) * harmonic_order]
+
+    # Other side: all entries are in solution_vector, after the unity side block
+    other_idx = harm_start + unity_side_size + k * harmonic_order
+    other_coeffs = solution_vector[other_idx : other_idx + harmonic_order]
+
     if basis_choice == 0:  # Cosine is unity
-        # Cosine coeffs: first one is implicit 1.0, others are in solution_vector
-        # Indices for dataset k: harm_start + k*(H-1) : harm_start + (k+1)*(H-1)
-        h_idx = harm_start + k * (harmonic_order - 1)
-        cos_coeffs_k = np.concatenate([[1.0], solution_vector[h_idx : h_idx + harmonic_order - 1]])
-        
-        # Sine coeffs: all are in solution_vector, after the unity_side_size block
-        sin_idx = harm_start + unity_side_size + k * harmonic_order
-        sin_coeffs_k = solution_vector[sin_idx : sin_idx + harmonic_order]
+        cos_coeffs_k, sin_coeffs_k = unity_coeffs, other_coeffs
     else:  # Sine is unity
-        # Sine coeffs: first one is implicit 1.0
-        h_idx = harm_start + k * (harmonic_order - 1)
-        sin_coeffs_k = np.concatenate([[1.0], solution_vector[h_idx : h_idx + harmonic_order - 1]])
-        
-        # Cosine coeffs
-        cos_idx = harm_start + unity_side_size + k * harmonic_order
-        cos_coeffs_k = solution_vector[cos_idx : cos_idx + harmonic_order]
+        sin_coeffs_k, cos_coeffs_k = unity_coeffs, other_coeffs
 
     # Reference = -(Basis_Cos * Coeffs_Cos + Basis_Sin * Coeffs_Sin) / Norm
     return -(cos_basis_k @ cos_coeffs_k + sin_basis_k @ sin_coeffs_k) / norm_factor
diff --git a/python/src/adctoolbox/calibration/calibrate_weight_sine.py b/python/src/adctoolbox/calibration/calibrate_weight_sine.py
index 0e7387a..754c2a9 100644
--- a/python/src/adctoolbox/calibration/calibrate_weight_sine.py
+++ b/python/src/adctoolbox/calibration/calibrate_weight_sine.py
@@ -148,7 +148,7 @@ def calibrate_weight_sine(
 
     num_datasets = len(bits_segments)
     num_harm_total = num_datasets * harmonic_order
-    idx_quadrature = bit_width_effective + num_harm_total
+    idx_quadrature = bit_width_effective + num_datasets + num_harm_total - 1
     norm_factor = np.sqrt(1.0 + coeffs[idx_quadrature]**2)
 
     w_phys_effective = _recover_columns_for_conditioning(
-- 
2.43.0


From 351d3d64a74fd17a6d0e281eff0091043dcf6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:53 +0000
Subject: [PATCH 03/23] fix: fold fractional bins about the exact Nyquist bin
 for odd FFT lengths

The threshold used floor division, so a fractional bin between floor(n/2)
and n/2 was mirrored to a value above Nyquist.
---
 python/src/adctoolbox/fundamentals/frequency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/frequency.py b/python/src/adctoolbox/fundamentals/frequency.py
index ddabead..7b5cf87 100644
--- a/python/src/adctoolbox/fundamentals/frequency.py
+++ b/python/src/adctoolbox/fundamentals/frequency.py
@@ -162,7 +162,7 @@ def fold_bin_to_nyquist(bin_idx: float, n_fft: int) -> float:
     bin_idx = bin_idx % n_fft
 
     # For real signals, bins > n_fft/2 are mirrored
-    if bin_idx > n_fft // 2:
+    if bin_idx > n_fft / 2:
         bin_idx = n_fft - bin_idx
 
     return bin_idx
-- 
2.43.0


From f23c62e41cf5b3cd4922ed2284f4771b626c481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:53 +0000
Subject: [PATCH 04/23] fix: keep the conjugate of the top bin when filtering
 odd-length data

For odd lengths the highest positive bin is floor(N/2) and it has a mirror
image, which the filter mask dropped, halving the component.
---
 python/src/adctoolbox/spectrum/extract_freq_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/extract_freq_components.py b/python/src/adctoolbox/spectrum/extract_freq_components.py
index 6ee06a3..960a8b5 100644
--- a/python/src/adctoolbox/spectrum/extract_freq_components.py
+++ b/python/src/adctoolbox/spectrum/extract_freq_components.py
@@ -63,7 +63,7 @@ def extract_freq_components(din, bands):
 
         # Set negative frequency bins (Hermitian symmetry)
         # Exclude DC (0) and Nyquist (N/2) to avoid double-setting
-        valid = ids[(ids > 0) & (ids < N // 2)]
+        valid = ids[(ids > 0) & (ids < N / 2)]
         mask[N - valid] = 1
 
     # Apply mask to all columns
-- 
2.43.0


From 75f86618fc648f5b27f87184f0032fc0cb7e0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:53 +0000
Subject: [PATCH 05/23] fix: keep the input length when the Farrow delay filter
 is longer than the record

numpy's 'same' convolution mode returns the longer of the two lengths, so a
record shorter than the filter came back longer than it went in.
---
 python/src/adctoolbox/timeinterleave/fractional_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/timeinterleave/fractional_delay.py b/python/src/adctoolbox/timeinterleave/fractional_delay.py
index 266e2fe..3f9e89c 100644
--- a/python/src/adctoolbox/timeinterleave/fractional_delay.py
+++ b/python/src/adctoolbox/timeinterleave/fractional_delay.py
@@ -108,7 +108,7 @@ def fractional_delay_farrow(
         for j in range(n_taps):
             if j != i:
                 h[i] *= (p_eval - j) / (i - j)
-    return np.convolve(y, h, mode="same")
+    return np.convolve(y, h)[P:P + len(y)]
 
 
 def _integer_shift_zero_pad(x: np.ndarray, D: int) -> np.ndarray:
-- 
2.43.0


From ae605f9b3742ab17ee7950ac8c4d4fbb16d504a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:53 +0000
Subject: [PATCH 06/23] fix: do not draw or close figures when error spectrum
 plotting is off

With create_plot=False the error and envelope spectrum analyses drew into
the current axes, closed the caller's figure and switched the matplotlib
backend. Ask the spectrum analysis not to plot instead.
---
 .../adctoolbox/aout/analyze_error_envelope_spectrum.py   | 9 +--------
 python/src/adctoolbox/aout/analyze_error_spectrum.py     | 9 +--------
 2 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
index f60e6fb..e9997da 100644
--- a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
@@ -100,14 +100,7 @@ def analyze_error_envelope_spectrum(signal, fs=1, frequency=None, create_plot: b
             plt.gca().set_title(title, fontsize=10, fontweight='bold')
     else:
         # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+        result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5, create_plot=False)
 
     # Add error signal and envelope to result
     result['error_signal'] = error_signal
diff --git a/python/src/adctoolbox/aout/analyze_error_spectrum.py b/python/src/adctoolbox/aout/analyze_error_spectrum.py
index 81819f5..add64b1 100644
--- a/python/src/adctoolbox/aout/analyze_error_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_spectrum.py
@@ -89,14 +89,7 @@ def analyze_error_spectrum(signal, fs=1, frequency=None, create_plot: bool = Tru
             plt.gca().set_title(title, fontsize=10, fontweight='bold')
     else:
         # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+        result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5, create_plot=False)
 
     # Add error signal to results
     result['error_signal'] = error_signal
-- 
2.43.0


From 259d1918ff7e636b8db25347f21fb404d85e082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:53 +0000
Subject: [PATCH 07/23] fix: refuse a conflicting skill install before copying
 anything

Installing several skills without --force copied the first ones and only
then failed on an existing later one, leaving a half-done install that also
blocked the retry. Check all destinations up front.
---
 python/src/adctoolbox/skill_cli.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index affd571..21a4ad2 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -150,6 +150,16 @@ def install_bundled_skills(
     install_root = Path(dest).expanduser()
     install_root.mkdir(parents=True, exist_ok=True)
 
+    # Check every destination first so a conflict leaves nothing half installed.
+    if not overwrite:
+        for skill_name in resolved_names:
+            target_dir = install_root / skill_name
+            if target_dir.exists() or target_dir.is_symlink():
+                raise FileExistsError(
+                    f"Destination already exists: {target_dir}. "
+                    "Use --force to replace it."
+                )
+
     installed_paths: list[Path] = []
 
     for skill_name in resolved_names:
@@ -157,11 +167,6 @@ def install_bundled_skills(
         source_dir = bundled_skill_dir(skill_name)
 
         if target_dir.exists() or target_dir.is_symlink():
-            if not overwrite:
-                raise FileExistsError(
-                    f"Destination already exists: {target_dir}. "
-                    "Use --force to replace it."
-                )
             if target_dir.is_symlink() or target_dir.is_file():
                 target_dir.unlink()
             else:
-- 
2.43.0


From 0c6e4029797c9e8ef02b2b58c5bb784b72945df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:53 +0000
Subject: [PATCH 08/23] fix: report an unknown skill name in --status instead
 of a traceback

---
 python/src/adctoolbox/skill_cli.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index 21a4ad2..414f4df 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -268,12 +268,16 @@ def main(argv: list[str] | None = None) -> int:
     dest = _require_dest(parser, args.dest)
 
     if args.status:
-        rows = skill_status(
-            args.skills,
-            install_dev=args.dev,
-            install_all=args.all,
-            dest=dest,
-        )
+        try:
+            rows = skill_status(
+                args.skills,
+                install_dev=args.dev,
+                install_all=args.all,
+                dest=dest,
+            )
+        except ValueError as exc:
+            print(f"[Error] {exc}", file=sys.stderr)
+            return 1
         _print_status(rows)
         return 0
 
-- 
2.43.0


From 555bcfedcd4166157ba494ccfd73d1552328dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:55 +0000
Subject: [PATCH 09/23] fix: import db_to_mag from where it lives in the target
 Vpp helper

---
 python/src/adctoolbox/utils/vpp_for_target_dbfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/utils/vpp_for_target_dbfs.py b/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
index 6ffade7..83dabe8 100644
--- a/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
+++ b/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
@@ -5,7 +5,7 @@ Calculates the required input amplitude (Vpp) to achieve a specific target
 signal level (dBFS). Useful for automated instrument control loops.
 """
 
-from adctoolbox.common.unit_conversions import db_to_mag
+from adctoolbox.fundamentals.units import db_to_mag
 
 def vpp_for_target_dbfs(vpp_current: float, signal_db_measured: float, signal_db_target: float = -0.5) -> float:
     """
-- 
2.43.0


From 679d80fd16d009620577a00a1269dc6f82bf8be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:17 +0000
Subject: [PATCH 10/23] fix: count saturated residues that rounding leaves just
 inside the range in overflow analysis

---
 python/src/adctoolbox/dout/analyze_overflow.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/src/adctoolbox/dout/analyze_overflow.py b/python/src/adctoolbox/dout/analyze_overflow.py
index 5257a5b..71a6e83 100644
--- a/python/src/adctoolbox/dout/analyze_overflow.py
+++ b/python/src/adctoolbox/dout/analyze_overflow.py
@@ -74,6 +74,10 @@ def analyze_overflow(
     ovf_percent_zero = np.zeros(M)
     ovf_percent_one = np.zeros(M)
 
+    # Rounding of the weighted sums can leave a saturated residue an ulp inside
+    # [0, 1], so compare against the limits with a small margin.
+    tol = 1e-12
+
     # Calculate normalized residue at each bit position
     for ii in range(M):
         # Weighted sum of remaining bits (from current bit to LSB)
@@ -86,14 +90,14 @@ def analyze_overflow(
         range_max[ii] = np.max(tmp) / sum_weight
 
         # Calculate overflow percentages
-        ovf_percent_zero[ii] = np.sum(data_decom[:, ii] <= 0) / N * 100
-        ovf_percent_one[ii] = np.sum(data_decom[:, ii] >= 1) / N * 100
+        ovf_percent_zero[ii] = np.sum(data_decom[:, ii] <= tol) / N * 100
+        ovf_percent_one[ii] = np.sum(data_decom[:, ii] >= 1 - tol) / N * 100
 
     # Detect overflow at specified bit position
     # MATLAB: ovf_zero = (data_decom(:,M-chkpos+1) <= 0);
     # Python 0-indexed: M-ofb+1-1 = M-ofb
-    ovf_zero = data_decom[:, M - ofb] <= 0
-    ovf_one = data_decom[:, M - ofb] >= 1
+    ovf_zero = data_decom[:, M - ofb] <= tol
+    ovf_one = data_decom[:, M - ofb] >= 1 - tol
     non_ovf = ~(ovf_zero | ovf_one)
 
     # Only plot if display requested
-- 
2.43.0


From f5bc7337bfc32f9c34c60dc56f5af736c4de01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:21 +0000
Subject: [PATCH 11/23] fix: recover normalized weights at any input phase in
 lite calibration

The solve assumed a unit cosine component, so a sine record starting at
phase zero returned weights scaled down to rounding noise.
---
 .../calibration/calibrate_weight_sine_lite.py   | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/src/adctoolbox/calibration/calibrate_weight_sine_lite.py b/python/src/adctoolbox/calibration/calibrate_weight_sine_lite.py
index 9c74306..1e5aa59 100644
--- a/python/src/adctoolbox/calibration/calibrate_weight_sine_lite.py
+++ b/python/src/adctoolbox/calibration/calibrate_weight_sine_lite.py
@@ -24,16 +24,21 @@ def calibrate_weight_sine_lite(
     cos_basis = np.cos(phase)
     sin_basis = np.sin(phase)
 
-    # Cosine=1 assumption
+    # Cosine=1 and sine=1 assumptions: neither alone covers every input phase,
+    # so keep the one that leaves the smaller residual
     offset_col = np.ones((n_samples, 1))
-    A = np.column_stack([bits, offset_col, sin_basis])
-    b = -cos_basis
-    coeffs, _, _, _ = lstsq(A, b)
+    best_err = np.inf
+    for unity, other in ((cos_basis, sin_basis), (sin_basis, cos_basis)):
+        A = np.column_stack([bits, offset_col, other])
+        trial, _, _, _ = lstsq(A, -unity)
+        err = np.linalg.norm(A @ trial + unity)
+        if err < best_err:
+            best_err, coeffs = err, trial
 
     # Extract weights and normalization
     weights_raw = coeffs[:bit_width]
-    sin_coeff = coeffs[-1]
-    norm_factor = np.sqrt(1.0 + sin_coeff**2)
+    quadrature_coeff = coeffs[-1]
+    norm_factor = np.sqrt(1.0 + quadrature_coeff**2)
     weights = weights_raw / norm_factor
 
     # Polarity correction (ensure positive sum)
-- 
2.43.0


From baae6261650901ae75fb2e0903aaa8f38e1d9f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:48 +0000
Subject: [PATCH 12/23] fix: keep frequency correction in consistent units when
 the calibration basis flips

The fine search builds derivative columns from one solve and takes the
correction from another. When the two solves picked different unity
fundamentals the step had the wrong size and sign, and the search ended
away from the tone.
---
 python/src/adctoolbox/calibration/_lstsq_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/adctoolbox/calibration/_lstsq_solver.py b/python/src/adctoolbox/calibration/_lstsq_solver.py
index 038b664..ed106e6 100644
--- a/python/src/adctoolbox/calibration/_lstsq_solver.py
+++ b/python/src/adctoolbox/calibration/_lstsq_solver.py
@@ -330,6 +330,10 @@ def _solve_weights_searching_freq(
 
         # Extract frequency corrections (last num_datasets elements)
         delta_f_raw = coeffs[-num_datasets:]
+        if basis_choice != basis_choice_temp:
+            # The derivative columns are in units of the previous solution, where the
+            # other fundamental term is unity: convert the correction back to them
+            delta_f_raw = delta_f_raw / coeffs[harmonic_start + unity_harmonics_size]
         delta_f_array = delta_f_raw * learning_rate / segment_lengths
 
         # Compute relative error using first harmonic magnitude for normalization
-- 
2.43.0


From 8cec1a037dd3a7ebdcc49aeaa7d0174ae20cb460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:18 +0000
Subject: [PATCH 13/23] fix: raise the documented error when spur prediction
 has no tone frequency

float(None) raised TypeError before the missing-frequency test was reached.
---
 python/src/adctoolbox/timeinterleave/predict_spurs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/timeinterleave/predict_spurs.py b/python/src/adctoolbox/timeinterleave/predict_spurs.py
index 5138499..71ef9ad 100644
--- a/python/src/adctoolbox/timeinterleave/predict_spurs.py
+++ b/python/src/adctoolbox/timeinterleave/predict_spurs.py
@@ -60,9 +60,10 @@ def predict_spurs(
     A_in = float(params.get("A", 1.0))
 
     if fin is None:
-        fin = float(params.get("fin"))
+        fin = params.get("fin")
         if fin is None:
             raise ValueError("fin must be provided via argument or params['fin']")
+        fin = float(fin)
 
     M = gain.size
     if not (offset.size == M and skew.size == M):
-- 
2.43.0


From 7953d219930bdb03b129c47c7396f557274111a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:53 +0000
Subject: [PATCH 14/23] fix: report a skill copy as out of sync when a file
 became a directory

The status command compared only entries that have the same kind on both
sides. A file replaced by a directory, or the reverse, was ignored and the
copy still shown as synced.
---
 python/src/adctoolbox/skill_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index 414f4df..ab1fff6 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -75,7 +75,7 @@ def bundled_skill_dir(skill_name: str) -> Path:
 def _dirs_equal(left: Path, right: Path) -> bool:
     """Return True when two small directory trees have identical file content."""
     cmp = filecmp.dircmp(left, right)
-    if cmp.left_only or cmp.right_only or cmp.funny_files:
+    if cmp.left_only or cmp.right_only or cmp.common_funny or cmp.funny_files:
         return False
     for name in cmp.common_files:
         if not filecmp.cmp(left / name, right / name, shallow=False):
-- 
2.43.0


From 13cd946b4adb35fb5f2daae64ed03f156d241295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:53 +0000
Subject: [PATCH 15/23] fix: refuse to install bundled skills over their own
 source

With --force and a destination that is the bundled skills directory, the
installer removed the source before trying to copy it, which lost the
packaged files.
---
 python/src/adctoolbox/skill_cli.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index ab1fff6..5d82039 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -160,6 +160,15 @@ def install_bundled_skills(
                     "Use --force to replace it."
                 )
 
+    # Replacing the bundled directory itself would delete the only source.
+    for skill_name in resolved_names:
+        target_dir = install_root / skill_name
+        if (
+            not target_dir.is_symlink()
+            and target_dir.resolve() == bundled_skill_dir(skill_name).resolve()
+        ):
+            raise ValueError(f"Destination is the bundled skill itself: {target_dir}")
+
     installed_paths: list[Path] = []
 
     for skill_name in resolved_names:
-- 
2.43.0


From 3878fe37c2925ef7e0bf2ed0d256fa75b301057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:02 +0000
Subject: [PATCH 16/23] fix: lay out the figure the panels belong to, not the
 current one

Drawing into two given panels called pyplot's layout routine, which works
on the current figure. An unrelated figure of the user was rearranged and
the figure with the panels was not.
---
 python/src/adctoolbox/aout/plot_decomposition_time.py        | 2 +-
 python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py | 2 +-
 python/src/adctoolbox/aout/plot_rearranged_error_by_value.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/adctoolbox/aout/plot_decomposition_time.py b/python/src/adctoolbox/aout/plot_decomposition_time.py
index 47a84fd..42dcf2f 100644
--- a/python/src/adctoolbox/aout/plot_decomposition_time.py
+++ b/python/src/adctoolbox/aout/plot_decomposition_time.py
@@ -171,4 +171,4 @@ def plot_decomposition_time(
 
     # Tight layout if we created the figure structure ourselves
     if ax is None:
-        plt.tight_layout()
+        ax1.get_figure().tight_layout()
diff --git a/python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py b/python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py
index ae8fdd9..e665f73 100644
--- a/python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py
+++ b/python/src/adctoolbox/aout/plot_rearranged_error_by_phase.py
@@ -182,4 +182,4 @@ def plot_rearranged_error_by_phase(results: dict, axes=None, ax=None, title: str
     ax2.grid(True, alpha=0.3)
 
     if ax is None:
-        plt.tight_layout()
+        ax1.get_figure().tight_layout()
diff --git a/python/src/adctoolbox/aout/plot_rearranged_error_by_value.py b/python/src/adctoolbox/aout/plot_rearranged_error_by_value.py
index 743de13..4080cdb 100644
--- a/python/src/adctoolbox/aout/plot_rearranged_error_by_value.py
+++ b/python/src/adctoolbox/aout/plot_rearranged_error_by_value.py
@@ -125,4 +125,4 @@ def plot_rearranged_error_by_value(results: dict, axes=None, ax=None, title: str
 
     # Tight layout if we created the figure structure ourselves
     if ax is None:
-        plt.tight_layout()
+        ax1.get_figure().tight_layout()
-- 
2.43.0


From 4835fbc1e5c96f35b7019df15cbbb22ae33b617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:03 +0000
Subject: [PATCH 17/23] fix: show input frequencies between 1 Hz and 1 kHz in
 Hz

The spectrum figure divided them by 1000 without adding a unit, so a 100 Hz
tone was labelled 0.1 Hz. The MATLAB version prints them undivided.
---
 python/src/adctoolbox/spectrum/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/plot_spectrum.py b/python/src/adctoolbox/spectrum/plot_spectrum.py
index 8eee64c..b14d3cb 100644
--- a/python/src/adctoolbox/spectrum/plot_spectrum.py
+++ b/python/src/adctoolbox/spectrum/plot_spectrum.py
@@ -249,7 +249,7 @@ def plot_spectrum(compute_results, show_title=True, show_label=True, plot_harmon
         if Fin >= 1e9: txt_fin = f'{Fin/1e9:.1f}G'
         elif Fin >= 1e6: txt_fin = f'{Fin/1e6:.1f}M'
         elif Fin >= 1e3: txt_fin = f'{Fin/1e3:.1f}K'
-        elif Fin >= 1: txt_fin = f'{Fin/1e3:.1f}'  # Matches original logic
+        elif Fin >= 1: txt_fin = f'{Fin:.1f}'
         else: txt_fin = f'{Fin:.3f}'
 
         snr_text = f'{snr_dbc:.2f} dB' if np.isfinite(snr_dbc) else 'N/A'
-- 
2.43.0


From d824b2c3c23a78b0fe1d25d9c7d9cd24dc4bbb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:21 +0000
Subject: [PATCH 18/23] fix: full scale of full-range integer records in the
 spectrum

The peak-to-peak value of int8/int16/int32 codes was formed in the type of
the codes and wrapped around, so a full-scale capture was reported at tens
of dB above full scale.
---
 python/src/adctoolbox/spectrum/_prepare_fft_input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/_prepare_fft_input.py b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
index 1d1677b..898393a 100644
--- a/python/src/adctoolbox/spectrum/_prepare_fft_input.py
+++ b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
@@ -44,7 +44,8 @@ def _prepare_fft_input(
 
     # Determine peak amplitude for normalization
     if max_scale_range is None:
-        peak_amplitude = (np.max(data) - np.min(data)) / 2
+        # Halve before subtracting: max - min wraps around for full-range integer codes
+        peak_amplitude = np.max(data) / 2 - np.min(data) / 2
     elif isinstance(max_scale_range, (list, tuple)):
         if len(max_scale_range) != 2:
             raise ValueError(f"Range tuple/list must have 2 elements, got {len(max_scale_range)}")
-- 
2.43.0


From d526b59943d79c4020f9545dd6b8948344e6a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:21 +0000
Subject: [PATCH 19/23] fix: full scale of full-range integer records in the
 error histogram

max - min wrapped around for signed integer codes, which gave a wrong LSB
size.
---
 python/src/adctoolbox/aout/analyze_error_pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_pdf.py b/python/src/adctoolbox/aout/analyze_error_pdf.py
index ae123bf..59c8a98 100644
--- a/python/src/adctoolbox/aout/analyze_error_pdf.py
+++ b/python/src/adctoolbox/aout/analyze_error_pdf.py
@@ -74,7 +74,8 @@ def analyze_error_pdf(signal, resolution=12, full_scale=None, frequency=None, cr
 
     # Infer full_scale from signal if not provided
     if full_scale is None:
-        full_scale = np.max(signal) - np.min(signal)
+        # In float: max - min wraps around for full-range integer codes
+        full_scale = float(np.max(signal)) - float(np.min(signal))
 
     # Convert error to LSB units
     lsb = full_scale / (2**resolution)
-- 
2.43.0


From e3231631d378a050e6ee8ff314cfc7c5753ef2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:21 +0000
Subject: [PATCH 20/23] fix: INL from a sine captured as full-range signed
 integers

The code span wrapped around to a negative value and its logarithm raised
an error.
---
 python/src/adctoolbox/aout/compute_inl_from_sine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/adctoolbox/aout/compute_inl_from_sine.py b/python/src/adctoolbox/aout/compute_inl_from_sine.py
index 6eeca89..63f6c89 100644
--- a/python/src/adctoolbox/aout/compute_inl_from_sine.py
+++ b/python/src/adctoolbox/aout/compute_inl_from_sine.py
@@ -37,8 +37,9 @@ def compute_inl_from_sine(
     """
     data = np.asarray(data).flatten()
 
-    data_min = np.min(data)
-    data_max = np.max(data)
+    # In float: max - min wraps around for full-range integer codes
+    data_min = float(np.min(data))
+    data_max = float(np.max(data))
     span = data_max - data_min
 
     # --- 1. Auto-Detect Mode (Voltage vs Code) ---
-- 
2.43.0


From f11301b93f15c36ce21d3016c5eec339bfbcc122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:21 +0000
Subject: [PATCH 21/23] fix: no low-amplitude warning for full-range integer
 records

The peak-to-peak value of signed integer codes wrapped around to a negative
number and was taken for a vanishing signal.
---
 python/src/adctoolbox/fundamentals/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/validate.py b/python/src/adctoolbox/fundamentals/validate.py
index cdac8cb..34e55b4 100644
--- a/python/src/adctoolbox/fundamentals/validate.py
+++ b/python/src/adctoolbox/fundamentals/validate.py
@@ -58,7 +58,8 @@ def validate_aout_data(aout_data, min_samples=100):
         raise ValueError(f"Insufficient analog samples ({n_samples}), need at least {min_samples}.")
 
     # Step 3: Physics/Signal Checks
-    data_range = np.ptp(data) # Peak-to-peak (max - min)
+    # Peak-to-peak (max - min), in float: full-range integer codes would wrap around
+    data_range = float(np.max(data)) - float(np.min(data))
     
     if data_range == 0:
         raise ValueError("Analog data is constant (flatline). Check connections.")
-- 
2.43.0


From f09a357e244b94864a3a75b047b503d0a85589f1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 04:37:31 +0000
Subject: [PATCH 22/23] fix: keep the frequency column of the sine fit at the
 size of the others

---
 python/src/adctoolbox/fundamentals/fit_sine_4param.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/adctoolbox/fundamentals/fit_sine_4param.py b/python/src/adctoolbox/fundamentals/fit_sine_4param.py
index d233988..c4fe53c 100644
--- a/python/src/adctoolbox/fundamentals/fit_sine_4param.py
+++ b/python/src/adctoolbox/fundamentals/fit_sine_4param.py
@@ -66,14 +66,17 @@ def _fit_core(y, freq_init, max_iter, tol, verbose=0):
         if i == 0:
             design_matrix = np.column_stack((cos_vec, sin_vec, np.ones(n)))
         else:
-            freq_corr = t * (-a * sin_vec + b * cos_vec)
+            # Keep the frequency column at the size of the others: its raw size grows
+            # with amplitude and length and would push them below the lstsq cutoff
+            corr_scale = n * np.hypot(a, b) or 1.0
+            freq_corr = t * (-a * sin_vec + b * cos_vec) / corr_scale
             design_matrix = np.column_stack((cos_vec, sin_vec, np.ones(n), freq_corr))
 
         coeffs = np.linalg.lstsq(design_matrix, y, rcond=None)[0]
         a, b, c = coeffs[:3]
 
         if len(coeffs) > 3:
-            delta_freq = coeffs[3] / (2 * np.pi)
+            delta_freq = coeffs[3] / corr_scale / (2 * np.pi)
             last_delta_freq = delta_freq
             n_iterations += 1
             freq += delta_freq
-- 
2.43.0


From 591d8a63d7624b0b39c75ba82a6715d931bb567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:30 +0000
Subject: [PATCH 23/23] fix: judge the goodness of the error phase fit
 independently of the unit

The coefficients of determination compared squared errors with an absolute
1e-20, so records in volts with microvolt errors switched to the fallback for
flat data or reported zero. The thresholds are now relative to the errors and
to the amplitude of the record.
---
 python/src/adctoolbox/aout/_fit_error_phase.py         | 2 +-
 python/src/adctoolbox/aout/rearrange_error_by_phase.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/adctoolbox/aout/_fit_error_phase.py b/python/src/adctoolbox/aout/_fit_error_phase.py
index 346610a..ff80431 100644
--- a/python/src/adctoolbox/aout/_fit_error_phase.py
+++ b/python/src/adctoolbox/aout/_fit_error_phase.py
@@ -69,7 +69,7 @@ def _fit_error_phase(
     y_pred = X @ coeffs
     ss_res = np.sum((y - y_pred) ** 2)
     ss_tot = np.sum((y - np.mean(y)) ** 2)
-    r_squared = 1.0 - ss_res / ss_tot if ss_tot > 1e-20 else 0.0
+    r_squared = 1.0 - ss_res / ss_tot if ss_tot > 1e-20 * np.sum(y ** 2) else 0.0
 
     return {
         "am_v": float(np.sqrt(am_variance_v2)),
diff --git a/python/src/adctoolbox/aout/rearrange_error_by_phase.py b/python/src/adctoolbox/aout/rearrange_error_by_phase.py
index e6f69da..efe5c5a 100644
--- a/python/src/adctoolbox/aout/rearrange_error_by_phase.py
+++ b/python/src/adctoolbox/aout/rearrange_error_by_phase.py
@@ -177,10 +177,12 @@ def rearrange_error_by_phase(
 
         # For flat data (base_noise-dominated), use normalized RMSE instead
         mean_actual = np.mean(rms_sq_actual)
-        if ss_tot > 1e-20 and ss_tot > 0.01 * mean_actual ** 2 * len(rms_sq_actual):
+        # Below this the error is rounding only; relative, so that the unit does not matter
+        rounding_sq = (1e-10 * amplitude) ** 2
+        if mean_actual > rounding_sq and ss_tot > 0.01 * mean_actual ** 2 * len(rms_sq_actual):
             r_squared_binned = 1.0 - ss_res / ss_tot
         else:
-            relative_rmse = np.sqrt(ss_res / len(rms_sq_actual)) / mean_actual if mean_actual > 1e-20 else 1.0
+            relative_rmse = np.sqrt(ss_res / len(rms_sq_actual)) / mean_actual if mean_actual > rounding_sq else 1.0
             r_squared_binned = max(0.0, 1.0 - relative_rmse ** 2)
     else:
         r_squared_binned = 0.0
-- 
2.43.0

