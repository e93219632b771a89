From 019f94f7a81948acbdc122c9d844fb69af8eea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 01/34] fix: u0 antiderivative ignored when there is no beam
 source

Without a beam `u0(tau, True)` skipped the integration of the homogeneous
solution and returned a mixture of u0 and its antiderivative.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a2c0d60..e3a0ce2 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -379,7 +379,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        if is_antiderivative_wrt_tau and there_is_beam_source:
+        if is_antiderivative_wrt_tau:
             if there_is_beam_source:
                 direct_beam_contribution = (B_collect_0.T / (-scale_tau / mu0)[None, :])[
                     :, l
-- 
2.43.0


From 24798bd5413648f3e52035c6055f270d82e34421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 02/34] fix: flux_down antiderivative indexed the layers twice

`(B_neg / (-scale_tau / mu0)[None, l])[:, l]` only worked when the number of
depths matched the number of layers and then used the wrong delta-M factor.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index e3a0ce2..7418fe5 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -577,9 +577,9 @@ def _assemble_intensity_and_fluxes(
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, l])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                 direct_beam = I0 * mu0 * np.exp(-tau / mu0) * -mu0
-                direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[None, l]
+                direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[l]
             
             u0_neg = (
                 np.einsum("tij, tj -> it", GC_neg[l, :, :], np.exp(exponent) / (scale_tau[:, None] * K_collect_0)[l, :])
-- 
2.43.0


From a7c419ee9897f03eadc5be291cf7590c8b1ede3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 03/34] fix: antiderivative of the internal-source solution
 with several layers

_mathscr_v divided by the delta-M factors of all layers without selecting the
layer of each depth, giving a broadcast error or the wrong factor.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/subroutines.py                    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 7418fe5..525a229 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -236,7 +236,7 @@ def _assemble_intensity_and_fluxes(
             if there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
                 _mathscr_v_contribution = _mathscr_v(
-                    scaled_tau, scale_tau, l_inv, 
+                    scaled_tau, scale_tau[l], l_inv, 
                     Nscoeffs,
                     scaled_s_poly_coeffs[l_uniq],
                     G_collect_0[l_uniq],
@@ -411,7 +411,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq],
@@ -470,7 +470,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, :N, :],
@@ -552,7 +552,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, N:, :],
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 19d239c..f26be56 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -744,7 +744,7 @@ def to_diag_ordered_form(A, Nsuperdiags, Nsubdiags):
 
     
 def _mathscr_v(tau,                             # Input optical depths
-               scale_tau,                       # Delta-scale factor for tau
+               scale_tau,                       # Delta-scale factor for each input optical depth
                l,                               # Layer index of each input optical depth
                Nscoeffs,                        # Number of isotropic source polynomial coefficients
                s_poly_coeffs,                   # Polynomial coefficients of isotropic source
@@ -764,7 +764,7 @@ def _mathscr_v(tau,                             # Input optical depths
     |          Variable             |                   Shape                   |
     | ----------------------------- | ----------------------------------------- |
     | ``tau``                       | ``Ntau``                                  |
-    | ``scale_tau``                 | `NLayers`                                 |
+    | ``scale_tau``                 | ``Ntau``                                  |
     | ``l``                         | ``Ntau``                                  |
     | ``Nscoeffs``                  | scalar                                    |
     | ``s_poly_coeffs``             | ``NL x Nscoeffs``                         |
@@ -855,7 +855,7 @@ def _mathscr_v(tau,                             # Input optical depths
         powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
         if is_antiderivative_wrt_tau:
             p = powers + 1
-            tau_poly = (tau[:, None] ** p) / (p * scale_tau)
+            tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])
         else:
             tau_poly = tau[:, None] ** powers
 
-- 
2.43.0


From e833255e7827aadaae3ea368255e915c7a54e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 04/34] fix: Fourier error used the wrong beam term

The recomputation of the last Fourier mode indexed the transpose of B_collect on
the wrong axis (broadcast error or wrong value for NLayers, NQuad != NFourier),
and left out the internal source when NFourier = 1. Reuse the mode just computed.
---
 .../_assemble_intensity_and_fluxes.py         | 38 +------------------
 1 file changed, 1 insertion(+), 37 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 525a229..22e1372 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -263,43 +263,7 @@ def _assemble_intensity_and_fluxes(
             output_is_tuple = False
 
             if return_Fourier_error:
-                exponent = np.concatenate(
-                    [
-                        K_collect[-1, l, :N] * (scaled_tau - scaled_tau_arr_lm1)[:, None],
-                        K_collect[-1, l, N:] * (scaled_tau - scaled_tau_arr_l)[:, None],
-                    ],
-                    axis=-1,
-                )
-                
-                direct_beam_contribution = 0
-                if is_antiderivative_wrt_tau:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, :] / (-scale_tau / mu0)[None, :]
-                        )[:, l] * np.exp(-scaled_tau / mu0)[None, :]
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it",
-                            GC_collect[-1, l, :, :],
-                            np.exp(exponent) / (scale_tau[:, None] * K_collect[-1, :, :])[l, :],
-                            optimize=True,
-                        )
-                        + direct_beam_contribution
-                    )
-                else:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, l] * np.exp(-scaled_tau / mu0)[None, :]
-                        )
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it", GC_collect[-1, l, :, :], np.exp(exponent), optimize=True
-                        )
-                        + direct_beam_contribution
-                    )
-        
+                ulast = um[-1, :, :] # Last Fourier mode
                 u_abs = np.abs(u)
                 Fourier_error = np.max(
                     np.divide(
-- 
2.43.0


From e8031198bca8c29e41a11be6ebdf6b6a7d0fd45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 05/34] fix: flags of the interpolated u0 were passed to the
 wrong arguments

`u0` has no Fourier error flag: return_Fourier_error reached return_tau_arr and
return_tau_arr reached a private argument, so the layer boundaries were not returned.
---
 src/PythonicDISORT/subroutines.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index f26be56..4d255a3 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -630,7 +630,7 @@ def interpolate(u):
         Pass ``is_antiderivative_wrt_tau = True`` (defaults to ``False``)
         to switch to an antiderivative of this function with respect to ``tau``.
         Pass ``return_Fourier_error = True`` (defaults to ``False``) to return the 
-        Cauchy / Fourier convergence evaluation (type: float) for the last Fourier term.
+        Cauchy / Fourier convergence evaluation (type: float) for the last Fourier term (only for ``u``).
         Pass ``return_tau_arr`` to return ``tau_arr`` (defaults to ``False``).
 
     """
@@ -672,14 +672,14 @@ def interpolate(u):
                 return np.squeeze(results)[()]
     
     elif argcount == 4: # Function is u0 instead of u
-        def u_interpol(mu, tau, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False):
+        def u_interpol(mu, tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):
             if not np.all(np.abs(mu) <= 1):
                 raise ValueError("mu values must be between -1 and 1.")
             
             mu = np.atleast_1d(mu)
 
-            if return_Fourier_error or return_tau_arr:
-                u_outputs = u(tau, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)
+            if return_tau_arr:
+                u_outputs = u(tau, is_antiderivative_wrt_tau, return_tau_arr)
                 u_cache = u_outputs[0]
             else:
                 u_cache = u(tau, is_antiderivative_wrt_tau)
@@ -695,7 +695,7 @@ def interpolate(u):
                 u_neg_interpol.set_yi(u_cache[N:])
                 results[mask_else] = u_neg_interpol(mu[mask_else])
             
-            if return_Fourier_error or return_tau_arr:
+            if return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
             else:
                 return np.squeeze(results)[()]
-- 
2.43.0


From c4fec097076bd4b496d3d07c7db20f0edfbacada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 06/34] fix: interpolated intensity was not safe to call from
 several threads

The interpolator objects are shared by all calls and set_yi replaced their values,
so one thread could interpolate the values of another.
---
 src/PythonicDISORT/subroutines.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 4d255a3..4100bf1 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -1,5 +1,6 @@
 import numpy as np
 import scipy as sc
+from copy import copy
 from math import pi
 import warnings
 
@@ -660,11 +661,13 @@ def interpolate(u):
             mask_else = ~mask_pos
             
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
-                results[mask_pos] = u_pos_interpol(mu[mask_pos])
+                u_pos_interpol_copy = copy(u_pos_interpol)
+                u_pos_interpol_copy.set_yi(u_cache[:N])
+                results[mask_pos] = u_pos_interpol_copy(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
-                results[mask_else] = u_neg_interpol(mu[mask_else])
+                u_neg_interpol_copy = copy(u_neg_interpol)
+                u_neg_interpol_copy.set_yi(u_cache[N:])
+                results[mask_else] = u_neg_interpol_copy(mu[mask_else])
             
             if return_Fourier_error or return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
@@ -689,11 +692,13 @@ def interpolate(u):
             mask_else = ~mask_pos
             
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
-                results[mask_pos] = u_pos_interpol(mu[mask_pos])
+                u_pos_interpol_copy = copy(u_pos_interpol)
+                u_pos_interpol_copy.set_yi(u_cache[:N])
+                results[mask_pos] = u_pos_interpol_copy(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
-                results[mask_else] = u_neg_interpol(mu[mask_else])
+                u_neg_interpol_copy = copy(u_neg_interpol)
+                u_neg_interpol_copy.set_yi(u_cache[N:])
+                results[mask_else] = u_neg_interpol_copy(mu[mask_else])
             
             if return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
-- 
2.43.0


From 000cacdb39a5636db370f41a4ea5b409f6ed25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 07/34] fix: matrix boundary conditions were treated as vectors

A (NQuad/2, NFourier) b_pos or b_neg, as documented, was classified by its length
alone and failed with a broadcast error.
---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 897550f..ebf2dd1 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -271,15 +271,15 @@ def pydisort(
         if not (0 <= phi0 and phi0 < 2 * pi):
             raise ValueError("Provide the principal azimuthal angle for the incident beam (must be between 0 and 2pi, excluding 2pi).")
     # Ensure that the BC inputs are of the correct shape
-    if len(np.atleast_1d(b_pos)) == 1:
+    if np.size(b_pos) == 1:
         b_pos_is_scalar = True
-    elif len(b_pos) == N:
+    elif np.shape(b_pos) == (N,):
         b_pos_is_vector = True
     elif not np.shape(b_pos) == (N, NFourier):
         raise ValueError("The shape of the bottom boundary condition is incorrect.")
-    if len(np.atleast_1d(b_neg)) == 1:
+    if np.size(b_neg) == 1:
         b_neg_is_scalar = True
-    elif len(b_neg) == N:
+    elif np.shape(b_neg) == (N,):
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-- 
2.43.0


From 5aa51065fef0075a3103f503b4ad94a50ff83b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 08/34] fix: sources that do not reach the rescale factor gave
 NaN or zero

The factor is the largest of the beam, boundary and top/bottom internal sources;
it is zero (or negative) for an internal source confined to middle layers or for
only negative boundary sources.
---
 src/PythonicDISORT/pydisort.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index ebf2dd1..1c8b2b7 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -358,16 +358,19 @@ def pydisort(
                 scaled_s_poly_coeffs[-1, :] @ (scaled_tau_arr_with_0[-1] ** np.arange(Nscoeffs))
             )
         )
+        if not rescale_factor > 0: # For example, the sources are only in the middle layers
+            rescale_factor = np.float64(1)
         I0 = (I0 / rescale_factor).copy()
         b_pos = (b_pos / rescale_factor).copy()
         b_neg = (b_neg / rescale_factor).copy()
         scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()
     else:
         rescale_factor = np.max((I0, np.max(b_pos), np.max(b_neg)))
-        if rescale_factor != 0:
-            I0 = (I0 / rescale_factor).copy()
-            b_pos = (b_pos / rescale_factor).copy()
-            b_neg = (b_neg / rescale_factor).copy()
+        if not rescale_factor > 0:
+            rescale_factor = np.float64(1)
+        I0 = (I0 / rescale_factor).copy()
+        b_pos = (b_pos / rescale_factor).copy()
+        b_neg = (b_neg / rescale_factor).copy()
             
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 766718740d4ec0a8c29175445c098a58b2169582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 09/34] fix: delta-M reclassification of the actinic flux was
 not scaled back

u0 is scaled back by rescale_factor but the reclassified direct beam was not, so
the downward actinic flux was wrong for any source magnitude other than 1 (and NaN
without a beam and with mu0 = 0).
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 22e1372..470da5d 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -322,7 +322,9 @@ def _assemble_intensity_and_fluxes(
             # The following complements the function `subroutines.generate_diff_act_flux_funcs`
             # in performing the reclassification of delta-scaled actinic flux
             if _return_act_dscale_for_reclass: 
-                if is_antiderivative_wrt_tau:
+                if not there_is_beam_source:
+                    act_dscale_reclassification = 0
+                elif is_antiderivative_wrt_tau:
                     act_dscale_reclassification = (
                         I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l] / mu0)
                         - I0 * np.exp(-tau / mu0) * -mu0
@@ -392,7 +394,7 @@ def _assemble_intensity_and_fluxes(
             outputs += (tau_arr,)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
-            outputs += (act_dscale_reclassification,)
+            outputs += (rescale_factor * act_dscale_reclassification,)
             outputs_len += 1
         return outputs[0] if outputs_len == 1 else outputs
         
-- 
2.43.0


From c25ee225da98408d7ef413c925a534ccab83b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:04 +0000
Subject: [PATCH 10/34] fix: cached scalar BDRF modes failed with a beam source

cache_BDRF_Fourier_modes returns, as documented, functions with scalar output for
scalar modes, but the reflected beam term indexed that output as a 2D array.
---
 src/PythonicDISORT/_solve_for_coeffs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index 5290d3a..e99ffb5 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -129,8 +129,9 @@ def _solve_for_coeffs(
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
-                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m(
-                        mu_arr_pos, np.array([mu0])
+                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.broadcast_to(
+                        # Cached scalar BDRF modes return a scalar
+                        BDRF_Fourier_modes_m(mu_arr_pos, np.array([mu0])), (N, 1)
                     )[:, 0]
                     
         # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From ef148607eeecc99d4ea1535da62d0080838b3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 11/34] fix: BDRF modes cached with mu0 returned the wrong
 column for two streams

With N = 1 the quadrature nodes and the beam angle are both arrays of length one and
the reflection of the diffuse intensity used the BDRF of the beam angle.
---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 4100bf1..660b13b 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -538,7 +538,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
-                    if len(neg_mup) == 1
+                    if len(neg_mup) == 1 and not np.array_equal(neg_mup, mu_arr_pos)
                     else BDRF_Fourier_modes_evaluated[m][:, :-1]
                 )
             )
-- 
2.43.0


From b11e0aa214237dcb1c2a773f5d3901f4a029d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 12/34] fix: do not modify or keep references to the caller's
 arrays

Leg_coeffs_all was corrected in place (an error for read-only arrays) and the output
functions kept using tau_arr and f_arr, so changing them later changed the results.
---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 1c8b2b7..3f73572 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -179,13 +179,13 @@ def pydisort(
     else:
         import numpy as np
     
-    # Turn floats into arrays
+    # Turn floats into arrays; copy those that are modified or used by the output functions
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr)
+    tau_arr = np.atleast_1d(tau_arr).copy()
     omega_arr = np.atleast_1d(omega_arr)
-    Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all)
+    Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all).copy()
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-    f_arr = np.atleast_1d(f_arr)
+    f_arr = np.atleast_1d(f_arr).copy()
     # --------------------------------------------------------------------------------------------------------------------------
     
     # Setup
-- 
2.43.0


From 4346a4b1286a766979802cfee1106707a7733223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 13/34] fix: returned arrays shared memory with the output
 functions

Modifying the tau_arr returned by return_tau_arr (or mu_arr with NT corrections)
changed the results of later evaluations.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/pydisort.py                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 470da5d..ec230c3 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -280,7 +280,7 @@ def _assemble_intensity_and_fluxes(
                 output_is_tuple = True
                 
             if return_tau_arr:
-                outputs += (tau_arr,)
+                outputs += (tau_arr.copy(),)
                 output_is_tuple = True
             
             if _return_l: # This indicates to the function that NT corrections are activated
@@ -391,7 +391,7 @@ def _assemble_intensity_and_fluxes(
         outputs = (rescale_factor * np.squeeze(u0),)
         outputs_len = 1
         if return_tau_arr:
-            outputs += (tau_arr,)
+            outputs += (tau_arr.copy(),)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
             outputs += (rescale_factor * act_dscale_reclassification,)
@@ -485,7 +485,7 @@ def _assemble_intensity_and_fluxes(
         flux = 2 * pi * (mu_arr_pos * W) @ u0_pos
         
         if return_tau_arr:
-            return rescale_factor * np.squeeze(flux)[()], tau_arr
+            return rescale_factor * np.squeeze(flux)[()], tau_arr.copy()
         else:
             return rescale_factor * np.squeeze(flux)[()]
 
@@ -570,7 +570,7 @@ def _assemble_intensity_and_fluxes(
             return (
                 rescale_factor * np.squeeze(diffuse_flux)[()],
                 rescale_factor * np.squeeze(direct_beam)[()],
-                tau_arr
+                tau_arr.copy()
             )
         else:
             return (
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 3f73572..fbb5344 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -698,7 +698,7 @@ def pydisort(
 
         # --------------------------------------------------------------------------------------------------------------------------
 
-        return mu_arr, flux_up, flux_down, u0, u_corrected
+        return mu_arr.copy(), flux_up, flux_down, u0, u_corrected
         
     else:
         return (mu_arr,) + _assemble_intensity_and_fluxes(
-- 
2.43.0


From a4bde99824e9cceade76511df44bcbb85169d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:42 +0000
Subject: [PATCH 14/34] fix: TMS contributions from other layers used the wrong
 layer's phase function

The contribution of layer r to the intensity in layer l must use the source
mathscr_B of layer r (section 3.7.2), not that of layer l; the corrected intensity
was discontinuous in inhomogeneous atmospheres. The antiderivative must use the
delta-M factor of layer l. Accumulating with a recurrence rather than dividing by
cumulative transmissions also avoids 0 / 0 = NaN for thick atmospheres.
---
 src/PythonicDISORT/pydisort.py | 76 +++++++++++++++-------------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index fbb5344..5c10bd7 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -432,24 +432,24 @@ def pydisort(
                 [
                     f(nu)[:, None, :]
                     # Iterates over the 0th axis
-                    for f in map(Legendre, weighted_Leg_coeffs_all[l_uniq])
+                    for f in map(Legendre, weighted_Leg_coeffs_all)
                 ],
                 axis=1,
-            ) # (NQuad, NLayers_uniq, Nphi)
+            ) # (NQuad, NLayers, Nphi)
             p_trun = np.concatenate(
                 [
                     f(nu)[:, None, :]
                     # Iterates over the 0th axis
-                    for f in map(Legendre, weighted_scaled_Leg_coeffs[l_uniq])
+                    for f in map(Legendre, weighted_scaled_Leg_coeffs)
                 ],
                 axis=1,
-            ) # (NQuad, NLayers_uniq, Nphi)
+            ) # (NQuad, NLayers, Nphi)
             
             mathscr_B = (
-                (scaled_omega_arr[l_uniq] * I0_div_4pi)[None, :, None]
+                (scaled_omega_arr * I0_div_4pi)[None, :, None]
                 * (mu0 / (mu0 + mu_arr))[:, None, None]
-                * (p_true / (1 - f_arr)[None, l_uniq, None] - p_trun)
-            ) # (NQuad, NLayers_uniq, Nphi)
+                * (p_true / (1 - f_arr)[None, :, None] - p_trun)
+            ) # (NQuad, NLayers, Nphi)
             # --------------------------------------------------------------------------------------------------------------------------
             
             neg_scaled_tau_div_mu0 = -scaled_tau / mu0
@@ -485,7 +485,7 @@ def pydisort(
             ## Contribution from other layers
             # --------------------------------------------------------------------------------------------------------------------------
             solution = (
-                mathscr_B[:, l_inv, :]
+                mathscr_B[:, l, :]
                 * np.concatenate((TMS_correction_pos, TMS_correction_neg), axis=0)[:, :, None]
             )
             
@@ -503,19 +503,15 @@ def pydisort(
                 )  # (Nlayers, )
 
 
-                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers_uniq, Nphi)
-                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers_uniq, Nphi)
+                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers, Nphi)
+                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers, Nphi)
 
                 # decay[n,r] = exp(-scaled_thickness_arr[r]/mu[n]); always <= 1
-                log_decay = -scaled_thickness_arr[None, :] * M_inv[:, None]                    # (N, NLayers)
-
-                # decay_prod[n,k] = prod_{m=0}^{k-1} decay[n,m], with decay_prod[:,0]=1
-                log_decay_prod = np.cumsum(log_decay, axis=1) # The cumsum requires ALL layers; `l_uniq` is inapplicable
-                decay_prod = np.concatenate((np.ones((N, 1)), np.exp(log_decay_prod)), axis=1) # (N, NLayers + 1)
+                decay = np.exp(-scaled_thickness_arr[None, :] * M_inv[:, None])                # (N, NLayers)
 
                 if is_antiderivative_wrt_tau:
-                    # (N, NLayers)
-                    integration_factor = mu_arr_pos[:, None] / scale_tau
+                    # (N, Ntau)
+                    integration_factor = mu_arr_pos[:, None] / scale_tau[None, l]
 
                 # ====================================================================
                 # POS: pre-accumulate "contribution from below" sums Rpos[N, l, Nphi]
@@ -524,24 +520,22 @@ def pydisort(
                     thickness_pos = scaled_thickness_arr[None, :] * (M_inv + mu0_inv)[:, None]  # (N, NLayers); always > 0
                     # em1_pos = 1 - exp(-scaled_thickness_arr*(1/mu + 1/mu0)) = -expm1(-thickness_pos)
                     em1_pos = -np.expm1(-thickness_pos)                                         # (N, NLayers)
-                    if is_antiderivative_wrt_tau:
-                        em1_pos = integration_factor * em1_pos
-
                     layer_term_pos = em1_pos * exp_taufront_mu0_inv[None, :]                    # (N, NLayers)
 
-                    # Reverse-scan via cumsum:
-                    # Rpos[l] = (1/decay_prod[l+1]) * sum_{r=l+1..} (layer_term_pos[r] * decay_prod[r])
-                    weighted_layer_term_pos = layer_term_pos * decay_prod[:, :NLayers]          # (N, NLayers)
-                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers)
-
-                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers]                  # (N, NLayers - 1)
-                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1))], axis=1)                # (N, NLayers)
+                    # Reverse-scan:
+                    # Rpos[l - 1] = Bpos[l] * layer_term_pos[l] + decay[l] * Rpos[l], with Rpos[-1] = 0
+                    layer_source_pos = Bpos * layer_term_pos[:, :, None]                        # (N, NLayers, Nphi)
+                    Rpos = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1, 0, -1):
+                        Rpos.append(layer_source_pos[:, r, :] + decay[:, [r]] * Rpos[-1])
+                    Rpos = np.stack(Rpos[::-1], axis=1)                                         # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     # expfac_pos = exp(M_inv*tau) * exp(-M_inv*scaled_tauwith0_back[l])
                     expfac_pos = np.exp(M_inv[:, None] * (scaled_tau - scaled_tauwith0_back[l])[None, :])  # (N, Ntau)
-                    tmp = np.take(Rpos, l, axis=1)                                                         # (N, Ntau)
-                    tmp = (tmp * expfac_pos)[:, :, None] * Bpos[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_pos = integration_factor * expfac_pos
+                    tmp = Rpos[:, l, :] * expfac_pos[:, :, None]                                           # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :] + tmp, solution[N:, :, :]), axis=0)
@@ -552,8 +546,6 @@ def pydisort(
                 # NEG: pre-accumulate "contribution from above" sums Rneg[N, l, Nphi]
                 # ====================================================================
                 if any_neg:
-                    decay = np.exp(log_decay)                                                    # (N, NLayers)
-                    
                     # Ensure no positive exponents
                     thickness_neg = scaled_thickness_arr[None, :] * (M_inv - mu0_inv)[:, None]   # (N, NLayers)
                     mask = (thickness_neg >= 0)
@@ -570,21 +562,19 @@ def pydisort(
                     layer_term_posthick = -em1_neg * exp_x1                                      # (N, NLayers)
                     layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)
 
-                    if is_antiderivative_wrt_tau:
-                        layer_term_neg = -integration_factor * layer_term_neg
-
-                    # Forward-scan via cumsum:
-                    # Rneg[l] = decay_prod[l] * sum_{r<l} layer_term_neg[r] / decay_prod[r+1]
-                    weighted_layer_term_neg = layer_term_neg / decay_prod[:, 1:]                 # (N, NLayers)
-                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers)
-                    
-                    Rneg_rest = decay_prod[:, 1 : NLayers] * cumsum_neg[:, :-1]                  # (N, NLayers - 1)
-                    Rneg = np.concatenate([np.zeros((N, 1)), Rneg_rest], axis=1)                 # (N, NLayers)
+                    # Forward-scan:
+                    # Rneg[l + 1] = Bneg[l] * layer_term_neg[l] + decay[l] * Rneg[l], with Rneg[0] = 0
+                    layer_source_neg = Bneg * layer_term_neg[:, :, None]                         # (N, NLayers, Nphi)
+                    Rneg = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1):
+                        Rneg.append(layer_source_neg[:, r, :] + decay[:, [r]] * Rneg[-1])
+                    Rneg = np.stack(Rneg, axis=1)                                                # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     expfac_neg = np.exp(M_inv[:, None] * (scaled_tauwith0_front[l] - scaled_tau)[None, :])  # (N, Ntau)
-                    tmp = np.take(Rneg, l, axis=1)                                                          # (N, Ntau)
-                    tmp = (tmp * expfac_neg)[:, :, None] * Bneg[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_neg = -integration_factor * expfac_neg
+                    tmp = Rneg[:, l, :] * expfac_neg[:, :, None]                                            # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :], solution[N:, :, :] + tmp), axis=0)
-- 
2.43.0


From 2c831a697490ee1fab9aa9ae95db443b38b37b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:12 +0000
Subject: [PATCH 15/34] fix: IMS averages weighted by cumulative depth instead
 of layer thickness

The averages over the atmosphere must not depend on how it is divided into layers
(the reference, Stamnes' DISORT, weights by the optical thickness of each layer).
---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 5c10bd7..93e0af4 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -591,14 +591,14 @@ def pydisort(
 
         # IMS correction for the intensity (see section 3.7.2)
         # --------------------------------------------------------------------------------------------------------------------------
-        sum1 = np.sum(omega_arr * tau_arr)
-        omega_avg = sum1 / np.sum(tau_arr)
-        sum2 = np.sum(f_arr * omega_arr * tau_arr)
+        sum1 = np.sum(omega_arr * thickness_arr)
+        omega_avg = sum1 / np.sum(thickness_arr)
+        sum2 = np.sum(f_arr * omega_arr * thickness_arr)
         f_avg = sum2 / sum1
         Leg_coeffs_residue = Leg_coeffs_all.copy()
         Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T
         Leg_coeffs_residue_avg = (
-            np.sum(Leg_coeffs_residue * omega_arr[:, None] * tau_arr[:, None], axis=0)
+            np.sum(Leg_coeffs_residue * omega_arr[:, None] * thickness_arr[:, None], axis=0)
             / sum2
         )
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
-- 
2.43.0


From f04cb1fb8bd5961d83751a07fd3b104c12c4ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 16/34] fix: NT corrections failed for two streams and several
 azimuths

calculate_nu squeezes the single polar angle away, after which the azimuths were
taken for polar angles.
---
 src/PythonicDISORT/pydisort.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 93e0af4..49cce90 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -604,9 +604,7 @@ def pydisort(
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0)
-            )
+            nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape(N, len(phi))
             x = 1 / mu_arr_pos - 1 / scaled_mu0
             if is_antiderivative_wrt_tau:
                 chi = (
-- 
2.43.0


From c92d8ff29d40f16d1b87e07cbcdac6dc2ce0da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:30 +0000
Subject: [PATCH 17/34] fix: NT corrections gave NaN when no layer both
 scatters and has a forward peak

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 49cce90..da71257 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -375,7 +375,7 @@ def pydisort(
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
     
-    if NT_cor and not only_flux and there_is_beam_source and np.any(f_arr > 0) and NLeg < NLeg_all and np.any(omega_arr > 0):
+    if NT_cor and not only_flux and there_is_beam_source and NLeg < NLeg_all and np.any(f_arr * omega_arr > 0):
         
         ############################### Perform NT corrections on the intensity but not the flux ###############################
         ############################### Refer to section 3.7.2 of the Comprehensive Documentation ##############################
-- 
2.43.0


From 3c3a59553c4956204f2f3f51d6e4d7030801ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:37 +0000
Subject: [PATCH 18/34] fix: direct flux was a scalar whatever the depths when
 there is no beam

flux_down documents that both of its outputs have the size of tau.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index ec230c3..7e482ae 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -539,7 +539,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        direct_beam = 0
+        direct_beam = np.zeros(len(tau))
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-- 
2.43.0


From 05a40cba5f9e95f5f852b48cb298d3e8bc857c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 19/34] fix: affine_transform_poly_coeffs only rejected scale
 factors that are all zero

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 660b13b..b22303d 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -592,7 +592,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
         Array with columns [D_0, D_1, ..., D_n]. 
         The rows correspond to different affine transformations.
     """
-    if np.any(a_arr) == 0:
+    if np.any(a_arr == 0):
         raise ValueError("The scale factors must be non-zero.") 
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
-- 
2.43.0


From 80ca1cb411d6e44a18463403c97207c9116ca639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:50 +0000
Subject: [PATCH 20/34] fix: Planck function lost all precision (up to
 infinity) for small wavenumber over temperature

---
 src/PythonicDISORT/subroutines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index b22303d..d458cd2 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -345,8 +345,8 @@ def Planck(T, WVNM):
         results[~not_zeros_ind] = 0
         
         # Coded in this way to prevent overflow
-        expterm = np.exp(-100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind]))
-        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * expterm) / (1 - expterm)
+        exponent = -100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind])
+        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * np.exp(exponent)) / -np.expm1(exponent)
         
     return np.squeeze(results)[()]
     
-- 
2.43.0


From d79226f58bef85a408bc70d9c6c14109d4e21152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 21/34] fix: spurious ComplexWarning on every solve with NumPy
 >= 2.5

---
 src/PythonicDISORT/_solve_for_gen_and_part_sols.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
index d85f3ec..49c2c37 100644
--- a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
+++ b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
@@ -181,6 +181,10 @@ def _solve_for_gen_and_part_sols(
         K_squared_arr, eigenvecs_GpG_arr = np.linalg.eig(
             np.einsum("lij, ljk -> lik", amb, apb, optimize=True)
         )
+        # NumPy >= 2.5 returns complex arrays even when every eigenvalue is real
+        if not np.any(np.imag(K_squared_arr)):
+            K_squared_arr = np.real(K_squared_arr)
+            eigenvecs_GpG_arr = np.real(eigenvecs_GpG_arr)
         
         # Eigenvalues arranged negative then positive, from largest to smallest magnitude
         K_arr_pos = np.sqrt(K_squared_arr)
-- 
2.43.0


From 2bcce219ad883aeac958c9f08a1dc0a70a740c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:30 +0000
Subject: [PATCH 22/34] fix: integer Legendre coefficients truncated the peak
 fractions in the IMS correction

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index da71257..14d0b11 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -595,7 +595,7 @@ def pydisort(
         omega_avg = sum1 / np.sum(thickness_arr)
         sum2 = np.sum(f_arr * omega_arr * thickness_arr)
         f_avg = sum2 / sum1
-        Leg_coeffs_residue = Leg_coeffs_all.copy()
+        Leg_coeffs_residue = Leg_coeffs_all.astype(float)  # Integer coefficients must not truncate `f_arr`
         Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T
         Leg_coeffs_residue_avg = (
             np.sum(Leg_coeffs_residue * omega_arr[:, None] * thickness_arr[:, None], axis=0)
-- 
2.43.0


From 2c2c449d5fd89cb434f2d2c28da3cbae72770d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 23/34] fix: integer depths overflowed in high powers of the
 internal source polynomial

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index d458cd2..9f98611 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -857,7 +857,7 @@ def _mathscr_v(tau,                             # Input optical depths
         mathscr_b_right = mathscr_b_sigma * G_inv_mu_inv[None, :, :]
         mathscr_b = np.einsum("lqk, plk- > lqp", G, mathscr_b_right, optimize=True)
 
-        powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
+        powers = np.arange(Nscoeffs - 1.0, -1, -1)[None, :]  # Float powers, else integer `tau` overflows
         if is_antiderivative_wrt_tau:
             p = powers + 1
             tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])
-- 
2.43.0


From 192949e241bd4a048389e35f119369258233292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 24/34] fix: integer translations overflowed in
 affine_transform_poly_coeffs

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 9f98611..9b6d8f2 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -605,7 +605,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
     T = (
         pascal[None, :, :]
         * (1 / a_arr)[:, None, None] ** (Ncoeffs_arange[None, None, :])
-        * (-b_arr[:, None, None]) ** pow_for_shifts[None, :, :]
+        * (-1.0 * b_arr[:, None, None]) ** pow_for_shifts[None, :, :]
     )  # Transformation matrix for the polynomial coefficients
     
     return np.einsum("lij, lj -> li", T, poly_coeffs, optimize=True)
-- 
2.43.0


From 3d1b89fbd430ac0aebb220656f4d5668cb893c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:00 +0000
Subject: [PATCH 25/34] fix: cached BDRF modes depended on later changes to the
 caller's list of modes

---
 src/PythonicDISORT/subroutines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 9b6d8f2..32e6800 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -519,6 +519,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
         mu0_caching = False
         warnings.warn("No caching with respect to `mu0`.")
     
+    BDRF_Fourier_modes = list(BDRF_Fourier_modes)  # The caller may change the list later
     NBDRF = len(BDRF_Fourier_modes)
     mu_arr_pos = Gauss_Legendre_quad(N)[0]
     
-- 
2.43.0


From a64bb98fa0d372fe9978d55b28dbe47af5567724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:03 +0000
Subject: [PATCH 26/34] fix: factorials overflowed 64-bit integers for internal
 sources with more than 21 coefficients

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 32e6800..ed2712e 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -844,7 +844,7 @@ def _mathscr_v(tau,                             # Input optical depths
         fac = np.empty(Nscoeffs)
         fac[0] = 1
         if Nscoeffs > 1:
-            fac[1:] = np.cumprod(np.arange(1, Nscoeffs))
+            fac[1:] = np.cumprod(np.arange(1.0, Nscoeffs))  # Integers overflow from 21! onwards
         fac_rev = fac[::-1]
         inv_fac_rev = 1 / fac_rev
 
-- 
2.43.0


From e0573654e134f043d1352ce4845b100e04e41998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:26 +0000
Subject: [PATCH 27/34] fix: affine_transform_poly_coeffs returned Python
 objects for more than 34 coefficients

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index ed2712e..dd149dd 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -598,7 +598,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
     Ncoeffs_arange = np.arange(Ncoeffs)
-    pascal = sc.linalg.pascal(Ncoeffs, kind="upper")
+    pascal = sc.linalg.pascal(Ncoeffs, kind="upper").astype(float)  # Else Python integers beyond 34 coefficients
     pow_for_shifts = np.where(
         pascal == 0, 0, Ncoeffs_arange[None, :] - Ncoeffs_arange[:, None]
     )
-- 
2.43.0


From b8cba5cdde4901bdb8f2345730cb9202ad4ab2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 28/34] fix: unsigned integer depths and azimuths wrapped
 around in the output functions

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 10 +++++-----
 src/PythonicDISORT/pydisort.py                       |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 7e482ae..c233a82 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -176,8 +176,8 @@ def _assemble_intensity_and_fluxes(
             Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
             to switch to an antiderivative of this function with respect to `tau`.
             """
-            tau = np.atleast_1d(tau)
-            phi = np.atleast_1d(phi)
+            tau = np.atleast_1d(tau) * np.float64(1)
+            phi = np.atleast_1d(phi) * np.float64(1)
             if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
                 raise ValueError("tau input outside the tau range specified for the atmosphere (check `tau_arr`).")
             
@@ -305,7 +305,7 @@ def _assemble_intensity_and_fluxes(
         Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
         to switch to an antiderivative of this function with respect to `tau`.
         """
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(tau) * np.float64(1)
         if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
             raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
         
@@ -416,7 +416,7 @@ def _assemble_intensity_and_fluxes(
         Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
         to switch to an antiderivative of this function with respect to `tau`.
         """
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(tau) * np.float64(1)
         if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
             raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
         
@@ -498,7 +498,7 @@ def _assemble_intensity_and_fluxes(
         Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
         to switch to an antiderivative of this function with respect to `tau`.
         """
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(tau) * np.float64(1)
         if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
             raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
 
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 14d0b11..cb5acaa 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -638,8 +638,8 @@ def pydisort(
             return_Fourier_error=False,
             return_tau_arr=False,
         ):
-            tau = np.atleast_1d(tau)
-            phi = np.atleast_1d(phi)
+            tau = np.atleast_1d(tau) * np.float64(1)
+            phi = np.atleast_1d(phi) * np.float64(1)
 
             u_star_outputs = u_star(
                 tau,
-- 
2.43.0


From eb08e131d7482ca0787d6cbc5716ebee80a17205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 29/34] fix: decreasing optical depths were accepted when given
 as unsigned integers

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index cb5acaa..a32d4ae 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -181,7 +181,7 @@ def pydisort(
     
     # Turn floats into arrays; copy those that are modified or used by the output functions
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr).copy()
+    tau_arr = np.atleast_1d(tau_arr) * np.float64(1)  # (a copy; unsigned integers would wrap around in differences)
     omega_arr = np.atleast_1d(omega_arr)
     Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all).copy()
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-- 
2.43.0


From 03fc2d4ca4eba5c1333fd8f2c9ad0d541694f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 30/34] fix: Planck overflowed for temperatures and wavenumbers
 in short integer types

---
 src/PythonicDISORT/subroutines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index dd149dd..1eeb2f9 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -337,7 +337,7 @@ def Planck(T, WVNM):
         Emitted power per unit area from a blackbody surface with units W / m^2.
 
     """
-    T = np.atleast_1d(T)
+    T = np.atleast_1d(T) * np.float64(1)
     not_zeros_ind = T != 0
     
     results = np.zeros(len(T))
@@ -346,7 +346,7 @@ def Planck(T, WVNM):
         
         # Coded in this way to prevent overflow
         exponent = -100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind])
-        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * np.exp(exponent)) / -np.expm1(exponent)
+        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3.0 * np.exp(exponent)) / -np.expm1(exponent)
         
     return np.squeeze(results)[()]
     
-- 
2.43.0


From bfffa5dc33401bc87b380d7811c65a988c8eab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 31/34] fix: linear splines through unsigned integer points
 wrapped around

---
 src/PythonicDISORT/subroutines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 1eeb2f9..4157801 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -395,6 +395,7 @@ def linear_spline_coefficients(x, y, check_inputs=True):
         The coefficients with axes (segment, ascending polynomial order) which is required by ``pydisort``.
 
     """
+    x, y = x * np.float64(1), y * np.float64(1)
     # Input checks
     if check_inputs:
         if not len(x) > 1:
-- 
2.43.0


From d68a87005a982700e4a9c212817b917138a2c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 32/34] fix: numbers of streams and diagonals given as unsigned
 NumPy integers made the solver fail

---
 src/PythonicDISORT/pydisort.py    | 3 +++
 src/PythonicDISORT/subroutines.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index a32d4ae..28ba62b 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -6,6 +6,7 @@ import warnings
 import numpy as np
 import scipy as sc
 from math import pi
+from operator import index
 from numpy.polynomial.legendre import Legendre
 from scipy import integrate
     
@@ -293,6 +294,8 @@ def pydisort(
     
     # Post input checks setup
     # --------------------------------------------------------------------------------------------------------------------------
+    # The fixed-width (especially unsigned) integers of NumPy cannot be negated or multiplied safely
+    N, NQuad, NLeg, NFourier = map(index, (N, NQuad, NLeg, NFourier))
     NBDRF = len(BDRF_Fourier_modes)
     weighted_Leg_coeffs_all = (2 * np.arange(NLeg_all) + 1) * Leg_coeffs_all
     Leg_coeffs = Leg_coeffs_all[:, :NLeg]
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 4157801..c622045 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -732,6 +732,7 @@ def to_diag_ordered_form(A, Nsuperdiags, Nsubdiags):
         The diagonal ordered form matrix as required by ``scipy.linalg.solve_banded``.
     """
     n = A.shape[0]
+    Nsuperdiags, Nsubdiags = int(Nsuperdiags), int(Nsubdiags)
     indices = np.arange(n)
 
     return np.concatenate(
-- 
2.43.0


From e4495ec8d0cf5aff74c2b52e7120f4b9064275ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:08 +0000
Subject: [PATCH 33/34] fix: cached BDRF modes were overwritten when BDRF
 functions return a reused array

---
 src/PythonicDISORT/subroutines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index c622045..5da4919 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -529,7 +529,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
             (
                 BDRF_Fourier_modes[m]
                 if np.isscalar(BDRF_Fourier_modes[m])
-                else BDRF_Fourier_modes[m](mu_arr_pos, np.append(mu_arr_pos, mu0))
+                else 1 * BDRF_Fourier_modes[m](mu_arr_pos, np.append(mu_arr_pos, mu0))  # (a copy)
             )
             for m in range(NBDRF)
         ]
@@ -552,7 +552,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
             (
                 BDRF_Fourier_modes[m]
                 if np.isscalar(BDRF_Fourier_modes[m])
-                else BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos)
+                else 1 * BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos)  # (a copy)
             )
             for m in range(NBDRF)
         ]
-- 
2.43.0


From 1b5043431f1a76319efadf277147d2c459d2a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:30 +0000
Subject: [PATCH 34/34] fix: NT-corrected intensity of a multi-layer atmosphere
 raised ValueError for an empty array of depths

---
 src/PythonicDISORT/pydisort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 28ba62b..2fd278f 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -493,8 +493,8 @@ def pydisort(
             )
             
             if is_atmos_multilayered:
-                any_pos = (l.min() < NLayers - 1)
-                any_neg = (l.max() > 0)
+                any_pos = np.any(l < NLayers - 1)
+                any_neg = np.any(l > 0)
 
                 mu0_inv = 1 / mu0
 
-- 
2.43.0

