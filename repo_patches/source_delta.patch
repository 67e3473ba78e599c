From a31483b2b2d13010b4ec5049c834e323801a5c0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 01/11] fix: cut IMRPhenomD off at Mf = 0.2 for every frequency
 grid

The cutoff was taken from the sample next to the one closest to Mf = 0.2, so
it depended on the grid: coarse grids lost samples far below the cutoff, and
grids entirely above it (or single samples) were not cut at all.
---
 src/ripplegw/waveforms/IMRPhenomD.py           | 9 ++-------
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 4 +---
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index efcf84f..2bb9c53 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -494,9 +494,7 @@ def Amp(
     Amp_IIb = get_IIb_Amp(f * M_s, theta, coeffs, f_RD, f_damp)
 
     # And now we can combine them by multiplying by a set of heaviside functions
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Amp = (
         Amp_Ins * jnp.heaviside(f3 - f, 0.5)
         + jnp.heaviside(f - f3, 0.5) * Amp_IIa * jnp.heaviside(f4 - f, 0.5)
@@ -536,10 +534,7 @@ def _gen_IMRPhenomD(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
-    # fcut_true = f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 1f45180..234ed37 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -443,9 +443,7 @@ def gen_IMRPhenomD_NRTidalv2(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
-- 
2.43.0


From 008ce2dab21a192d3b2fd6022c0e940105c6281c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 02/11] fix: apply tc as a time shift in IMRPhenomPv2

The phase was f * M_s * tc instead of 2 pi f tc as in the other models.
---
 src/ripplegw/waveforms/IMRPhenomPv2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index d103328..2a6f123 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -243,8 +243,7 @@ def gen_IMRPhenomPv2(
     # )
     t0 = jax.grad(phi_IIb)(f_RD) / (2 * jnp.pi)
     phase_corr = jnp.cos(2 * jnp.pi * fs * (t0)) - 1j * jnp.sin(2 * jnp.pi * fs * (t0))
-    M_s = (m1 + m2) * gt
-    phase_corr_tc = jnp.exp(-1j * fs * M_s * tc)
+    phase_corr_tc = jnp.exp(-2j * jnp.pi * fs * tc)
     hp *= phase_corr * phase_corr_tc
     hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From 5f9da5f752d0659e98168b86db0c8ec4a3b325e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 03/11] fix: use the tc and phic conventions of the other
 models in IMRPhenomXAS

tc moved the signal to earlier times, and phic entered as a phase -phic of the
strain instead of twice the orbital phase, 2 phic, as in the other models and
lalsimulation.
---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index b9b8c95..0998331 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1356,7 +1356,7 @@ def _gen_IMRPhenomXAS(
         + PI / 4.0
         + PI
     )
-    ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - theta_extrinsic[2]
+    ext_phase_contrib = 2 * theta_extrinsic[2] - 2.0 * PI * f * theta_extrinsic[1]
     Psi = Psi + (linb * fM_s) + lina + phifRef - 2 * PI + ext_phase_contrib
 
     A = Amp(f, theta_intrinsic, amp_coeffs, D=theta_extrinsic[0])
-- 
2.43.0


From 9fba0477ad460d7a8c245862ea26b85a53692b57 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 04/11] fix: end the Planck taper at zero and give it a
 derivative in frequency

The taper was one at exactly 1.2 times the merger frequency, and its
derivative with respect to frequency was always zero.
---
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 234ed37..d9aa79e 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -39,7 +39,7 @@ def get_planck_taper(x: Array, y: float) -> Array:
         x < y,
         1.0,
         jnp.where(
-            x > yp,
+            x >= yp,
             0.0,
             1.0 - 1.0 / (jnp.exp((yp - y) / (x - y) + (yp - y) / (x - yp)) + 1.0),
         ),
@@ -63,7 +63,7 @@ def get_planck_taper_der(x: Array, y: float):
         x < y,
         0.0,
         jnp.where(
-            x > yp,
+            x >= yp,
             0.0,
             jnp.exp((yp - y) / (x - y) + (yp - y) / (x - yp))
             * (
@@ -79,8 +79,10 @@ def get_planck_taper_der(x: Array, y: float):
     return tangent_out
 
 
+# The taper only depends on x / y, which gives its derivative with respect to x
 get_planck_taper.defjvps(
-    None, lambda y_dot, primal_out, x, y: get_planck_taper_der(x, y) * y_dot
+    lambda x_dot, primal_out, x, y: -(y / x) * get_planck_taper_der(x, y) * x_dot,
+    lambda y_dot, primal_out, x, y: get_planck_taper_der(x, y) * y_dot,
 )
 
 
-- 
2.43.0


From 3d639920ca5a128e8264b5d1315d1846ce2d6854 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 05/11] fix: allow f_ref to be traced in TaylorF2

---
 src/ripplegw/waveforms/TaylorF2.py | 70 +++++++++++++++---------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/ripplegw/waveforms/TaylorF2.py b/src/ripplegw/waveforms/TaylorF2.py
index f2956f3..971f2bb 100644
--- a/src/ripplegw/waveforms/TaylorF2.py
+++ b/src/ripplegw/waveforms/TaylorF2.py
@@ -409,41 +409,43 @@ def _gen_TaylorF2(
     r = dist_mpc * m_per_Mpc
     amp0 = -4.0 * m1 * m2 / r * MRSUN * gt * jnp.sqrt(PI / 12.0)
 
+    # f_ref may be a traced value. No reference phase is subtracted if it is zero
+    has_ref = f_ref != 0
     ref_phasing = 0.0
-    if f_ref != 0:
-        vref = jnp.cbrt(piM * f_ref)
-        logvref = jnp.log(vref)
-
-        v2ref = vref * vref
-        v3ref = vref * v2ref
-        v4ref = vref * v3ref
-        v5ref = vref * v4ref
-        v6ref = vref * v5ref
-        v7ref = vref * v6ref
-        v8ref = vref * v7ref
-        v9ref = vref * v8ref
-        v10ref = vref * v9ref
-        v12ref = v2ref * v10ref
-        v13ref = vref * v12ref
-        v14ref = vref * v13ref
-        v15ref = vref * v14ref
-        ref_phasing += pfa7 * v7ref
-        ref_phasing += (pfa6 + pfl6 * logvref) * v6ref
-        ref_phasing += (pfa5 + pfl5 * logvref) * v5ref
-        ref_phasing += pfa4 * v4ref
-        ref_phasing += pfa3 * v3ref
-        ref_phasing += pfa2 * v2ref
-        ref_phasing += pfa1 * vref
-        ref_phasing += pfaN
-
-        # Tidal terms in reference phasing
-        ref_phasing += pft15 * v15ref
-        ref_phasing += pft14 * v14ref
-        ref_phasing += pft13 * v13ref
-        ref_phasing += pft12 * v12ref
-        ref_phasing += pft10 * v10ref
-
-        ref_phasing /= v5ref
+    vref = jnp.cbrt(piM * jnp.where(has_ref, f_ref, 1.0))
+    logvref = jnp.log(vref)
+
+    v2ref = vref * vref
+    v3ref = vref * v2ref
+    v4ref = vref * v3ref
+    v5ref = vref * v4ref
+    v6ref = vref * v5ref
+    v7ref = vref * v6ref
+    v8ref = vref * v7ref
+    v9ref = vref * v8ref
+    v10ref = vref * v9ref
+    v12ref = v2ref * v10ref
+    v13ref = vref * v12ref
+    v14ref = vref * v13ref
+    v15ref = vref * v14ref
+    ref_phasing += pfa7 * v7ref
+    ref_phasing += (pfa6 + pfl6 * logvref) * v6ref
+    ref_phasing += (pfa5 + pfl5 * logvref) * v5ref
+    ref_phasing += pfa4 * v4ref
+    ref_phasing += pfa3 * v3ref
+    ref_phasing += pfa2 * v2ref
+    ref_phasing += pfa1 * vref
+    ref_phasing += pfaN
+
+    # Tidal terms in reference phasing
+    ref_phasing += pft15 * v15ref
+    ref_phasing += pft14 * v14ref
+    ref_phasing += pft13 * v13ref
+    ref_phasing += pft12 * v12ref
+    ref_phasing += pft10 * v10ref
+
+    ref_phasing /= v5ref
+    ref_phasing = jnp.where(has_ref, ref_phasing, 0.0)
 
     # Build coefficients and factors
     v = jnp.cbrt(piM * f)
-- 
2.43.0


From 3229d53020d9a78f3c8a67b354bca4f982a93a1a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 06/11] fix: return inf instead of nan where a noise curve is
 infinite

Sn_O2 has infinite noise below 15 Hz, where the interpolation returned nan.
---
 src/ripplegw/noise.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ripplegw/noise.py b/src/ripplegw/noise.py
index 3e883fc..4eca759 100644
--- a/src/ripplegw/noise.py
+++ b/src/ripplegw/noise.py
@@ -78,10 +78,12 @@ def _load_noise(
     Sns = jnp.array(Sns)
     f_range = (fs[0], fs[-1])
 
-    return (
-        jax.jit(lambda f: jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf)),
-        f_range,
-    )
+    def Sn(f):
+        Sn_f = jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf)
+        # Interpolating next to an infinite value gives nan
+        return jnp.where(jnp.isnan(Sn_f) & ~jnp.isnan(f), jnp.inf, Sn_f)
+
+    return jax.jit(Sn), f_range
 
 
 Sn_aLIGO, f_range_aLIGO = _load_noise("aLIGO", asd=True)
-- 
2.43.0


From 9a58c7955f4abe625c1c1bf5c35a888d8b97f26e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:55 +0000
Subject: [PATCH 07/11] fix: keep phiRef and finite angles in the aligned-spin
 limit of IMRPhenomPv2

With aligned spins the output did not depend on phiRef, and arccos of a ratio
rounded above one gave nan, e.g. for some face-on aligned binaries.
---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 42aac9a..fff3aca 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -88,11 +88,16 @@ def convert_spins(
     J0x_sf = m1_2 * s1x + m2_2 * s2x
     J0y_sf = m1_2 * s1y + m2_2 * s2y
     J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
-    J0 = jnp.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-    thetaJ_sf = jnp.arccos(J0z_sf / J0)
+    # arctan2 cannot leave its domain by rounding, unlike arccos(J0z_sf / J0)
+    thetaJ_sf = jnp.arctan2(jnp.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf), J0z_sf)
 
-    phiJ_sf = jnp.arctan2(J0y_sf, J0x_sf)
+    # In the aligned-spin limit J has no direction in the orbital plane. As in LAL,
+    # take that of the line of sight, so that phiRef keeps its meaning
+    is_aligned = (jnp.abs(J0x_sf) < 1e-15) & (jnp.abs(J0y_sf) < 1e-15)
+    phiJ_sf = jnp.where(
+        is_aligned, jnp.pi / 2.0 - phiRef, jnp.arctan2(J0y_sf, J0x_sf)
+    )
 
     phi_aligned = -phiJ_sf
 
@@ -117,7 +122,7 @@ def convert_spins(
     tmp_x, tmp_y, tmp_z = ROTATEY(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
     tmp_x, tmp_y, tmp_z = ROTATEZ(kappa, tmp_x, tmp_y, tmp_z)
 
-    alpha0 = jnp.arctan2(tmp_y, tmp_x)
+    alpha0 = jnp.where(is_aligned, jnp.pi, jnp.arctan2(tmp_y, tmp_x))
 
     # Finally we determine thetaJ, by rotating N
     tmp_x, tmp_y, tmp_z = Nx_sf, Ny_sf, Nz_sf
@@ -125,7 +130,7 @@ def convert_spins(
     tmp_x, tmp_y, tmp_z = ROTATEY(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
     tmp_x, tmp_y, tmp_z = ROTATEZ(kappa, tmp_x, tmp_y, tmp_z)
     Nx_Jf, Nz_Jf = tmp_x, tmp_z
-    thetaJN = jnp.arccos(Nz_Jf)
+    thetaJN = jnp.arctan2(Nx_Jf, Nz_Jf)
 
     # Finally, we need to redefine the polarizations:
     # PhenomP's polarizations are defined following Arun et al (arXiv:0810.5336)
-- 
2.43.0


From 98ecec01eb8782005fbc0e77b433cd1631c07cbd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:27 +0000
Subject: [PATCH 08/11] fix: no nan for nearly equal masses

Rounding can take eta slightly above 1/4 when the masses are nearly equal, and
the square roots of 1 - 4 eta then gave nan.
---
 src/ripplegw/__init__.py                     |  8 +++++---
 src/ripplegw/waveforms/IMRPhenomD.py         |  2 +-
 src/ripplegw/waveforms/IMRPhenomD_utils.py   |  4 ++--
 src/ripplegw/waveforms/IMRPhenomPv2.py       |  2 +-
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py |  2 +-
 src/ripplegw/waveforms/IMRPhenomXAS.py       | 14 +++++++-------
 src/ripplegw/waveforms/IMRPhenomX_utils.py   |  6 +++---
 7 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index f80bbd6..226de6f 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -49,7 +49,9 @@ def ms_to_Mc_eta(m):
         the component masses
     """
     m1, m2 = m
-    return (m1 * m2) ** (3 / 5) / (m1 + m2) ** (1 / 5), m1 * m2 / (m1 + m2) ** 2
+    # For nearly equal masses rounding can take eta above its maximum of 1/4
+    eta = jnp.minimum(m1 * m2 / (m1 + m2) ** 2, 0.25)
+    return (m1 * m2) ** (3 / 5) / (m1 + m2) ** (1 / 5), eta
 
 
 # TODO in code below, reduce copy-paste
@@ -76,7 +78,7 @@ def lambdas_to_lambda_tildes_from_q(params: Array):
         Dominant tidal term.
     """
     lambda_1, lambda_2, q = params
-    eta = q / (1 + q) ** 2
+    eta = jnp.minimum(q / (1 + q) ** 2, 0.25)
     lambda_plus = lambda_1 + lambda_2
     lambda_minus = lambda_1 - lambda_2
     lambda_tilde = (
@@ -236,7 +238,7 @@ def lambda_tildes_to_lambdas_from_q(params: Array):
 
     lambda_tilde, delta_lambda_tilde, q = params
 
-    eta = q / (1 + q) ** 2
+    eta = jnp.minimum(q / (1 + q) ** 2, 0.25)
 
     coefficient_1 = 1 + 7 * eta - 31 * eta**2
     coefficient_2 = (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index 2bb9c53..815300e 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -214,7 +214,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, coeffs: Array) -> Array:
     eta2 = eta * eta
     eta3 = eta * eta2
 
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     SetaPlus1 = 1.0 + Seta
 
     # Spin variables
diff --git a/src/ripplegw/waveforms/IMRPhenomD_utils.py b/src/ripplegw/waveforms/IMRPhenomD_utils.py
index 61a7ab2..2e35960 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_utils.py
@@ -38,7 +38,7 @@ def EradRational0815_s(eta, s):
 
 
 def EradRational0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
@@ -146,7 +146,7 @@ def get_coeffs(theta: Array) -> Array:
     # Definition of chiPN from lalsuite
     chi_s = (chi1 + chi2) / 2.0
     chi_a = (chi1 - chi2) / 2.0
-    seta = (1 - 4 * eta) ** (1 / 2)
+    seta = jnp.maximum(1 - 4 * eta, 0.0) ** (1 / 2)
     chiPN = chi_s * (1 - 76 * eta / 113) + seta * chi_a
 
     coeff = (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index 2a6f123..e546ac3 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -33,7 +33,7 @@ def PhenomPCoreTwistUp(
 
     # here it is used to be LAL_MTSUN_SI
     f = fHz * gt * M  # Frequency in geometric units
-    q = (1.0 + jnp.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+    q = (1.0 + jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0)) - 2.0 * eta) / (2.0 * eta)
     m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
     m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
     Sperp = chip * (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index fff3aca..2e2a7ab 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -31,7 +31,7 @@ def ROTATEY(angle, x, y, z):
 
 
 def FinalSpin0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index 0998331..15b34c0 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -25,7 +25,7 @@ def get_inspiral_phase(fM_s: Array, theta: Array, phase_coeffs: Array) -> Array:
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
     eta3 = eta2 * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -342,7 +342,7 @@ def get_intermediate_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -554,7 +554,7 @@ def get_mergerringdown_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
     chi_eff = mm1 * chi1 + mm2 * chi2
@@ -811,7 +811,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, amp_coeffs: Array) -> Array:
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1018,7 +1018,7 @@ def get_intermediate_Amp(
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1212,7 +1212,7 @@ def get_mergerringdown_Amp(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1331,7 +1331,7 @@ def _gen_IMRPhenomXAS(
 
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
diff --git a/src/ripplegw/waveforms/IMRPhenomX_utils.py b/src/ripplegw/waveforms/IMRPhenomX_utils.py
index a8f8c48..2298c3f 100644
--- a/src/ripplegw/waveforms/IMRPhenomX_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomX_utils.py
@@ -20,7 +20,7 @@ def get_cutoff_fMs(m1, m2, chi1, chi2):
     # m1Sq = m1_s * m1_s
     # m2Sq = m2_s * m2_s
 
-    delta = jnp.sqrt(1.0 - 4.0 * eta_s)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta_s, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
@@ -432,7 +432,7 @@ def Eqspin_CV(EqSpin_coeffs, eta, S):
 
 def Uneqspin_CV(EqSpin_coeffs, eta, S, chia):
     chia2 = chia * chia
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     eta2 = eta * eta
     eta3 = eta2 * eta
     eta4 = eta3 * eta
@@ -522,7 +522,7 @@ def Amp_Eqspin_CV(EqSpin_coeffs, eta, S):
 
 
 def Amp_Uneqspin_CV(UneqSpin_coeffs, eta, S, chia):
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     return (
         chia
         * delta
-- 
2.43.0


From 602de8cc70f7335ba3dfdae47d4b285128321255 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:45 +0000
Subject: [PATCH 09/11] fix: interpolate the QNM tables with natural splines as
 LAL does

---
 src/ripplegw/waveforms/IMRPhenomD_QNMdata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_QNMdata.py b/src/ripplegw/waveforms/IMRPhenomD_QNMdata.py
index 2b06b0e..f471997 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_QNMdata.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_QNMdata.py
@@ -3031,5 +3031,8 @@ _QNMData_fdamp = jnp.array(
 from scipy.interpolate import CubicSpline
 
 QNMData_a = jnp.linspace(-1, 1, 500_000)
-QNMData_fRD = CubicSpline(_QNMData_a, _QNMData_fRD)(QNMData_a)
-QNMData_fdamp = CubicSpline(_QNMData_a, _QNMData_fdamp)(QNMData_a)
+# LAL interpolates the tables with natural splines (gsl_interp_cspline)
+QNMData_fRD = CubicSpline(_QNMData_a, _QNMData_fRD, bc_type="natural")(QNMData_a)
+QNMData_fdamp = CubicSpline(_QNMData_a, _QNMData_fdamp, bc_type="natural")(
+    QNMData_a
+)
-- 
2.43.0


From a44092c9ad3fde8ee07ddc8cf97ceddd5a30300d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 10/11] fix: finite derivatives of IMRPhenomXAS where gamma2
 exceeds one

---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index 15b34c0..b35a1c2 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1239,11 +1239,12 @@ def get_mergerringdown_Amp(
             amp_coeffs[5, amp_uneqspin_indx:], eta, StotR, chia
         )
     )
+    # The branch that is not taken must stay finite, or its derivative is nan
+    one_minus_gamma2_sq = jnp.where(gamma2 <= 1.0, 1.0 - gamma2 * gamma2, 1.0)
     fMs_AmpRDMin = jnp.where(
         gamma2 <= 1.0,
         jnp.fabs(
-            fMs_RD
-            + fMs_damp * gamma3 * (jnp.sqrt(1.0 - gamma2 * gamma2) - 1.0) / gamma2
+            fMs_RD + fMs_damp * gamma3 * (jnp.sqrt(one_minus_gamma2_sq) - 1.0) / gamma2
         ),
         jnp.fabs(fMs_RD + fMs_damp * (-1.0) * gamma3 / gamma2),
     )
-- 
2.43.0


From f22aaffb1fa7c748c638476492cc610bfc93a49f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 11/11] fix: finite derivatives of IMRPhenomPv2 when one body
 has no in-plane spin

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 2e2a7ab..5a332f2 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -69,9 +69,16 @@ def convert_spins(
     chi1_l = s1z  # Dimensionless aligned spin on BH 1
     chi2_l = s2z  # Dimensionless aligned spin on BH 2
 
-    # Magnitude of the spin projections in the orbital plane
-    S1_perp = m1_2 * jnp.sqrt(s1x**2 + s1y**2)
-    S2_perp = m2_2 * jnp.sqrt(s2x**2 + s2y**2)
+    # Magnitude of the spin projections in the orbital plane. The square root is kept
+    # away from zero, where its derivative is not finite, if a body has none
+    s1_perp2 = s1x**2 + s1y**2
+    s2_perp2 = s2x**2 + s2y**2
+    S1_perp = m1_2 * jnp.where(
+        s1_perp2 > 0.0, jnp.sqrt(jnp.where(s1_perp2 > 0.0, s1_perp2, 1.0)), 0.0
+    )
+    S2_perp = m2_2 * jnp.where(
+        s2_perp2 > 0.0, jnp.sqrt(jnp.where(s2_perp2 > 0.0, s2_perp2, 1.0)), 0.0
+    )
 
     A1 = 2 + (3 * m2) / (2 * m1)
     A2 = 2 + (3 * m1) / (2 * m2)
-- 
2.43.0

