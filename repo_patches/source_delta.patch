From 51c6f1f0b821bec53697f211cc052d452c37a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 01/11] fix: use the host's mass fraction 1/(1+q+q3) in the
 triple-lens contour magnification

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index ea8716a..b3deea2 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -97,7 +97,7 @@ def mag_extended_source(
         r3, psi = params["r3"], params["psi"]
         a = 0.5 * s
         e1 = q / (1.0 + q + q3)
-        e2 = (1 - q3) / (1.0 + q + q3)
+        e2 = 1.0 / (1.0 + q + q3)
         _params = {"a": a, "r3": r3, "psi": psi, "e1": e1, "e2": e2}
         x_cm = a * (1 - q) / (1 + q)
         w0 -= x_cm
-- 
2.43.0


From ec6604628389efa5821c16b9ef98e90d1137f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 02/11] fix: seed mag_limb_dark's regions with the limb images
 of the requested lens system

---
 src/microjax/inverse_ray/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 08a18ee..fc47a71 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -119,7 +119,7 @@ def mag_limb_dark(
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
-    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params)
+    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
 
-- 
2.43.0


From 722d57dc40a83110c49c3fcd404c65ba88094c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 03/11] fix: place the third lens at r3*exp(i*psi) in the
 triple-lens hexadecapole

---
 src/microjax/multipole.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/microjax/multipole.py b/src/microjax/multipole.py
index 7148f22..1b60c5f 100644
--- a/src/microjax/multipole.py
+++ b/src/microjax/multipole.py
@@ -260,7 +260,7 @@ def mag_hexadecapole(
     **params
         Additional lens parameters in the mid-point coordinate system. For
         binaries this expects ``a`` and ``e1``; for triples ``a``, ``r3``,
-        ``e1`` and ``e2`` in addition to any other configuration details.
+        ``psi``, ``e1`` and ``e2`` in addition to any other configuration details.
 
     Returns
     -------
@@ -291,13 +291,14 @@ def mag_hexadecapole(
         )
     elif nlenses == 3:
         a, r3, e1, e2 = params["a"], params["r3"], params["e1"], params["e2"]
+        r3_complex = r3 * jnp.exp(1j * params.get("psi", 0.0))
         W = (
             lambda k: (-1) ** (k - 1)
             * factorial(k - 1)
             * (
                 e1 / (z - a) ** k
                 + e2 / (z + a) ** k
-                + (1.0 - e1 - e2) / (z - r3) ** k
+                + (1.0 - e1 - e2) / (z - r3_complex) ** k
             )
         )
     else:
-- 
2.43.0


From fdb1ea6fde5add5cd71e6889959fc955b7af5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 04/11] fix: raise ValueError instead of exiting the caller's
 process on gamma(0) in fftlog

---
 src/microjax/fastlens/fftlog.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/fftlog.py b/src/microjax/fastlens/fftlog.py
index 018b5a1..5bedcfb 100644
--- a/src/microjax/fastlens/fftlog.py
+++ b/src/microjax/fastlens/fftlog.py
@@ -179,8 +179,7 @@ def g_m_vals(mu,q):
 	switching to asymptotic form when |Im(q)| + |mu| > cut = 200
 	'''
 	if(mu+1+q.real[0]==0):
-		print("gamma(0) encountered. Please change another nu value! Try nu=1.1 .")
-		exit()
+		raise ValueError("gamma(0) encountered. Please change another nu value! Try nu=1.1 .")
 	imag_q= np.imag(q)
 	g_m=np.zeros(q.size, dtype=complex)
 	cut =200
@@ -208,8 +207,7 @@ def g_m_ratio(a):
 	switching to asymptotic form when |Im(a)| > cut = 200
 	'''
 	if(a.real[0]==0):
-		print("gamma(0) encountered. Please change another nu value! Try nu=1.1 .")
-		exit()
+		raise ValueError("gamma(0) encountered. Please change another nu value! Try nu=1.1 .")
 	imag_a= np.imag(a)
 	g_m=np.zeros(a.size, dtype=complex)
 	cut =100
-- 
2.43.0


From fa91487d71e3e901beaed6a98746a86f1edea492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 05/11] fix: keep image tracking complete along the binary axis
 by nudging warm-start guesses off it

---
 src/microjax/point_source.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index e3ebba1..83b24e6 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -392,9 +392,12 @@ def _images_point_source_sequential(w, nlenses=2, **params):
         return z, z_mask
 
     z_first, z_mask_first = fn(w[0])
-    
+    # Guesses that all sit on the binary axis can only converge to real roots of
+    # a real polynomial, so move each one slightly off the axis.
+    nudge = 1e-3j * jnp.exp(1j * jnp.arange(z_first.shape[0]))
+
     def body_fn(z_prev, w):
-        z, z_mask = fn(w, z_init=z_prev, custom_init=True)
+        z, z_mask = fn(w, z_init=z_prev + nudge, custom_init=True)
         return z, (z, z_mask)
 
     _, xs = lax.scan(body_fn, z_first, w[1:])
-- 
2.43.0


From 52cfb5baa5013bfe380d40a6bba11afbcaa1f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 06/11] fix: single-lens Jacobian determinant is 1 - 1/|z|^4

---
 src/microjax/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index 83b24e6..6d3037a 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -147,7 +147,7 @@ def lens_eq_det_jac(z: jax.Array, nlenses: int = 2, **params) -> jax.Array:
     zbar = jnp.conjugate(z)
 
     if nlenses == 1:
-        return 1.0 - 1.0 / jnp.abs(zbar**2)
+        return 1.0 - 1.0 / jnp.abs(zbar**2) ** 2
 
     if nlenses == 2:
         a, e1 = params["a"], params["e1"]
-- 
2.43.0


From 42ee7b4c256e10dcc96d4af086480bfa5b52cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 07/11] fix: linear_chi2 broadcasts a scalar error to all
 points

---
 src/microjax/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/likelihood.py b/src/microjax/likelihood.py
index c99136a..36dffd9 100644
--- a/src/microjax/likelihood.py
+++ b/src/microjax/likelihood.py
@@ -62,6 +62,7 @@ def linear_chi2(x: Array, y: Array, err: Union[float, Array] = 0.0) -> Tuple[flo
     The solution minimizes ``sum_i w_i (y_i - a - b x_i)^2`` with
     ``w_i = 1/err_i^2`` when ``err_i > 0`` else ``w_i = 1``.
     """
+    err = jnp.broadcast_to(jnp.asarray(err), jnp.shape(x))
     wt = jnp.where(err > 0, 1.0 / (err ** 2), 1.0)
     sumw = jnp.sum(wt)
     sumx = jnp.sum(wt * x)
-- 
2.43.0


From 7ae0795729786e1fab62e8fdac49e796df3bfb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 08/11] fix: an epoch without finite roots no longer spoils the
 rest of a tracked path

---
 src/microjax/point_source.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index 6d3037a..bb9178a 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -396,7 +396,13 @@ def _images_point_source_sequential(w, nlenses=2, **params):
     # a real polynomial, so move each one slightly off the axis.
     nudge = 1e-3j * jnp.exp(1j * jnp.arange(z_first.shape[0]))
 
+    # An epoch without finite roots (e.g. a source exactly on a lens) must not
+    # spoil the following ones, so its roots are replaced by generic guesses.
+    n_roots = z_first.shape[0]
+    restart = 1.5 * jnp.exp(2j * jnp.pi * jnp.arange(n_roots) / n_roots)
+
     def body_fn(z_prev, w):
+        z_prev = jnp.where(jnp.isfinite(z_prev), z_prev, restart)
         z, z_mask = fn(w, z_init=z_prev + nudge, custom_init=True)
         return z, (z, z_mask)
 
-- 
2.43.0


From 44679d16ba4efd7d9ea1fb8e9adb0d26621cdd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 09/11] fix: only drop angular intervals that were merged
 across 0/2pi in inverse-ray regions

---
 src/microjax/inverse_ray/merge_area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 3cfe72a..ce3d996 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -215,7 +215,7 @@ def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
     th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
 
     new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    cond_vanish = jnp.any(jnp.any(same_r, axis=1)&(th_mins == 0)) & (th_maxs == 2*jnp.pi)  # (N, ) shape
+    cond_vanish = jnp.any(cond_merge, axis=0)  # (N, ) shape: only intervals that were merged
     new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
     
     sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-- 
2.43.0


From fd07d1e78c44162ca0c6248d18f4f93f0c332dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 10/11] fix: apply limb darkening to multipole points of
 contour light curves

---
 src/microjax/caustics/lightcurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index b34efb5..03840df 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -246,11 +246,11 @@ def magnifications(
 
     if nlenses==1:
         test = w_points > 2*rho
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)  # miyazaki
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1 if limb_darkening else 0.0, nlenses=nlenses, **_params)  # miyazaki
     elif nlenses==2:
         # Compute hexadecapole approximation at every point and a test where it is
         # sufficient
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1 if limb_darkening else 0.0, nlenses=nlenses, **_params)
         test1 = _caustics_proximity_test(
             w_points - x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params #miyazaki
             #w_points + x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params
-- 
2.43.0


From b83e96e6e3306f3d163765197b3498ed9164283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 11/11] fix: digamma of real arguments is real, so gamma can be
 differentiated there

---
 src/microjax/fastlens/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index e14a36c..34df7bf 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -94,7 +94,7 @@ def digamma_(z):
     negative_real_mask = jnp.real(z) < 0
     reflection = jnp.pi / jnp.tan(jnp.pi * z)
     z = jnp.where(negative_real_mask, 1.0 - z, z)
-    psi = jnp.where(negative_real_mask, -reflection, 0.0 + 0.0j)
+    psi = jnp.where(negative_real_mask, -reflection, jnp.zeros_like(z))
 
     # Adjustment for x < X
     X = 8.0
-- 
2.43.0

