From 890a0bc498ba780a9c984e8ef4a735b61ee8a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 01/56] fix: no duplicated or zero-thickness lens planes from
 floating point ranges

---
 pyHalo/utilities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index 7f90b48..6e570d2 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -84,11 +84,14 @@ def generate_lens_plane_redshifts(zlens, zsource, lens_plane_spacing=None):
     if lens_plane_spacing is None:
         lens_plane_spacing = lenscone_default.default_z_step
     zmin = lenscone_default.default_zstart
+    # np.arange with floats can include its end point; a plane that coincides (to the precision of the plane redshifts)
+    # with the main deflector or the source plane would be duplicated or have zero thickness
+    tol = 0.5 * 10 ** -lenscone_default.default_z_round
     if zlens is None:
-        redshifts = np.arange(zmin, zsource, lens_plane_spacing)
+        redshifts = np.arange(zmin, zsource - tol, lens_plane_spacing)
     else:
-        front_z = np.arange(zmin, zlens, lens_plane_spacing)
-        back_z = np.arange(zlens, zsource, lens_plane_spacing)
+        front_z = np.arange(zmin, zlens - tol, lens_plane_spacing)
+        back_z = np.arange(zlens, zsource - tol, lens_plane_spacing)
         redshifts = np.append(front_z, back_z)
     delta_zs = []
     for i in range(0, len(redshifts) - 1):
-- 
2.43.0


From af65d8b27ce38e571508ae0fdfa8318cc2bdd793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 02/56] fix: realizations are equal only if both contain the
 same halos

---
 pyHalo/single_realization.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 283367d..89d2d95 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -815,13 +815,7 @@ class Realization(object):
         :param other_reealization:
         :return:
         """
-        tags = self._tags(self.halos)
-        other_tags = other_reealization._tags()
-        for tag in other_tags:
-            if tag not in tags:
-                return False
-        else:
-            return True
+        return set(self._tags()) == set(other_reealization._tags())
 
     def plot(self, ax, annotation='', color_normalization=6, marker_size_normalization=7.5, marker_size_scaling=1.0,
              view_init_1=30.0, view_init_2=70.0, r_max=None, ray_interp_x_list=None, ray_interp_y_list=None):
-- 
2.43.0


From 516e2a302f482157670cf09664117d9de2568318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:33 +0000
Subject: [PATCH 03/56] fix: aligning a realization with the source keeps the
 halos below min_shift_redshift

---
 pyHalo/single_realization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 89d2d95..f55a7c1 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -403,6 +403,7 @@ class Realization(object):
                 halos_out.append(halo)
                 continue
             if halo.z < min_shift_redshift:
+                halos_out.append(halo)
                 continue
             to_shift.append(halo)
             halos_out.append(halo)
-- 
2.43.0


From d2f7d6ceb58f6299ebea024d6a7bc77927eb264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 04/56] fix: realizations derived from an aligned realization
 remember that they are aligned

---
 pyHalo/realization_extensions.py |  1 +
 pyHalo/single_realization.py     | 20 +++++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9cccdba..9b945c3 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -67,6 +67,7 @@ class RealizationExtensions(object):
                                              self._realization._rendering_center_x,
                                              self._realization._rendering_center_y,
                                              self._realization.geometry)
+        realization._has_been_shifted = self._realization._has_been_shifted
         return realization
 
     def add_black_holes(self, log10_mass_ratio,
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index f55a7c1..11763f5 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -49,11 +49,13 @@ def realization_at_z(realization,
     centerx, centery = realization.rendering_center
     kwargs_halo_model = realization.kwargs_halo_model
     geometry = realization.geometry
-    return Realization.from_halos(halos, realization.lens_cosmo,
+    new_realization = Realization.from_halos(halos, realization.lens_cosmo,
                                   kwargs_halo_model,
                                   mass_sheet_correction,
                                   realization.rendering_classes,
-                                  centerx, centery, geometry), indexes
+                                  centerx, centery, geometry)
+    new_realization._has_been_shifted = realization._has_been_shifted
+    return new_realization, indexes
 
 class Realization(object):
 
@@ -227,9 +229,11 @@ class Realization(object):
             dy = self.y[check, None] - np.asarray(y_coords)[None, :]
             keep[check] = np.any(np.hypot(dx, dy) < aperture_radius_arcsec, axis=1)
         halos = [self.halos[i] for i in np.where(keep)[0]]
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
                                       self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def filter(self, aperture_radius,
                log10_mass_allowed_global,
@@ -315,9 +319,11 @@ class Realization(object):
             for i in inds_keep_at_plane:
                 halos.append(plane_halos[i])
 
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
                                       self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def set_rendering_classes(self, rendering_classes):
 
@@ -377,9 +383,11 @@ class Realization(object):
             rendering_classes = self.rendering_classes
 
         centerx, centery = self.rendering_center
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, rendering_classes,
                                       centerx, centery, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def shift_background_to_source(self, ray_interp_x, ray_interp_y, min_shift_redshift=0):
         """
@@ -532,6 +540,8 @@ class Realization(object):
         realization_2 = Realization.from_halos(halos_2, self.lens_cosmo,
                                                self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,
                                                centerx, centery, self.geometry)
+        realization_1._has_been_shifted = self._has_been_shifted
+        realization_2._has_been_shifted = self._has_been_shifted
 
         return realization_1, realization_2
 
-- 
2.43.0


From 5e4a8579e6264f43652ac24effc08b5bd5057477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 05/56] fix: a massive galaxy can recompute its lens model
 keywords

---
 pyHalo/Halos/HaloModels/sis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 5e3e364..2ac5198 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -197,12 +197,12 @@ class MassiveGalaxy(Halo):
             gamma_outer = self._args['gamma_outer']
             sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
             sigma_crit_arcsec = sigma_crit_mpc * (0.001 * kpc_per_arcsec) ** 2
-            self._alphaRs = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
+            self._rho0_norm = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
                                                             rs_arcsec,
                                                             1.0,
                                                             gamma_inner,
                                                             gamma_outer) / sigma_crit_arcsec
-        return self._alphaRs
+        return self._rho0_norm
 
 
 
-- 
2.43.0


From fd2d2209e987db95f63a92cc448d4405c1680005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 06/56] fix: lens model keywords follow halos moved by an
 alignment with the source

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 3 +++
 pyHalo/single_realization.py              | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 710603f..d929b5f 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -348,6 +348,9 @@ class Hybrid(Halo):
             lenstronomy_params_tnfwc = deepcopy(self.tnfwc_halo.lenstronomy_params[0])
             lenstronomy_params_tnfw[0]['alpha_Rs'] *= 1-self._rescaling_factor
             lenstronomy_params_tnfwc[0]['alpha_Rs'] *= self._rescaling_factor
+            # the components share the position of the hybrid halo, also after it was moved
+            for kwargs in lenstronomy_params_tnfw + lenstronomy_params_tnfwc:
+                kwargs['center_x'], kwargs['center_y'] = np.round(self.x, 4), np.round(self.y, 4)
             self._kwargs_lenstronomy = lenstronomy_params_tnfw + lenstronomy_params_tnfwc
         return self._kwargs_lenstronomy, None
 
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 11763f5..0c2ef15 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -425,6 +425,11 @@ class Realization(object):
             for halo, xs, ys in zip(to_shift, xshift, yshift):
                 halo.x += float(xs)
                 halo.y += float(ys)
+                # discard lens model keywords computed at the old position
+                for cached in ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split',
+                               '_lenstronomy_params'):
+                    if hasattr(halo, cached):
+                        delattr(halo, cached)
 
         new_realization = Realization.from_halos(halos_out, self.lens_cosmo, self.kwargs_halo_model,
                                                  self.apply_mass_sheet_correction,
-- 
2.43.0


From 1f43f6fb09ba5789304354bcd633e0c4a03b2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 07/56] fix: subhalos get the profile requested for subhalos,
 field halos the one for field halos

---
 pyHalo/pyhalo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/pyhalo.py b/pyHalo/pyhalo.py
index c516ed1..611f2f7 100644
--- a/pyHalo/pyhalo.py
+++ b/pyHalo/pyhalo.py
@@ -125,9 +125,9 @@ class pyHalo(object):
         mdefs = []
         for i in range(0, len(masses)):
             if subhalo_flag[i]:
-                mdefs += [mdef_field_halos]
-            else:
                 mdefs += [mdef_subhalos]
+            else:
+                mdefs += [mdef_field_halos]
         realization = Realization(masses, x_arcsec, y_arcsec, r3d, mdefs, redshifts, subhalo_flag, self.lens_cosmo,
                                   kwargs_halo_model=kwargs_halo_model,
                                   mass_sheet_correction=True,
-- 
2.43.0


From 419f0ba65d98490765ffdeaa4b4617d94cf6eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 08/56] fix: the TNFWC_SIDM profile can be built

---
 pyHalo/single_realization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 0c2ef15..eb8da4b 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -9,6 +9,7 @@ from pyHalo.Halos.HaloModels.PsuedoJaffe import PJaffeSubhalo
 from pyHalo.Halos.HaloModels.blackhole import BlackHole
 from pyHalo.Halos.HaloModels.ULDM import ULDMFieldHalo, ULDMSubhalo
 from pyHalo.Halos.HaloModels.gaussianhalo import GaussianHalo
+from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
 import numpy as np
 from copy import deepcopy
 
-- 
2.43.0


From c94dd66716d03fb882b29169342b9aad0fb053bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 09/56] fix: inverse transform sampling returns a single sample
 with current numpy

---
 pyHalo/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index 6e570d2..eff890e 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -44,7 +44,7 @@ class ITSampling(object):
         u = np.random.uniform(self._umin, self._umax, int(n_samples))
         samples_out = self._cdf_inverse(u)
         if n_samples == 1:
-            return float(samples_out)
+            return float(np.squeeze(samples_out))
         else:
             return np.squeeze(samples_out)
 
-- 
2.43.0


From 9462a01cc3e04c6d4a7e1de2c1acbc161c5e620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 10/56] fix: the physical density of a pseudo-Jaffe halo is
 finite

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index ed33abc..40fc25e 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -35,7 +35,7 @@ class PJaffeSubhalo(Halo):
             concentration = self.profile_args
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
             ra_kpc = 0.01 * rs
-            rho = self._rho(self.mass, ra_kpc, ra_kpc, self.c * rs)
+            rho = self._rho(self.mass, rs, ra_kpc, r200)
             self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'rho': rho}
 
         return self._params_physical
-- 
2.43.0


From 5499fea0352f908d775e4bb82101da6700880f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 11/56] fix: pseudo-Jaffe and generalized NFW halos have one
 concentration

profile_args drew a second concentration from the (possibly random) model,
different from the one used by c and nfw_params.
---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py     | 2 +-
 pyHalo/Halos/HaloModels/generalized_nfw.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index 40fc25e..c832b21 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -111,7 +111,7 @@ class PJaffeSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 81020d4..53c36f5 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -84,7 +84,7 @@ class GeneralNFWSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             gamma_inner = self._args['gamma_inner']
             gamma_outer = self._args['gamma_outer']
             self._profile_args = (concentration, gamma_inner, gamma_outer)
-- 
2.43.0


From 7b8d654f64be4e0028e53500f1f8c15b01d1dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 12/56] fix: mass_3d of a TNFW halo does not depend on what was
 queried before

The normalization was read before the truncation model rescaled it.
---
 pyHalo/Halos/HaloModels/TNFW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 3bdfca7..65c2ef9 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -140,9 +140,10 @@ class TNFWFieldHalo(Halo):
         """
         if rmax == 'r200':
             rmax = self.nfw_params[1] * self.c
+        # the truncation model may rescale the normalization, so evaluate it first
+        r_trunc = self.profile_args[1]
         rs = self.nfw_params[1]
         rho0 = self.nfw_params[0] * self._rescale_norm
-        r_trunc = self.profile_args[1]
         return self.tnfw_lenstronomy.mass_3d(rmax, rs, rho0, r_trunc/rs)
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
-- 
2.43.0


From dfd21ab6e5d5c0eaf5f0014565bd7e7478783875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 13/56] fix: density_profile_3d includes the rescaled
 normalization

as mass_3d, params_physical and the lens model keywords do.
---
 pyHalo/Halos/HaloModels/NFW.py  | 2 +-
 pyHalo/Halos/HaloModels/TNFW.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW.py b/pyHalo/Halos/HaloModels/NFW.py
index 3c40c16..34e3f02 100644
--- a/pyHalo/Halos/HaloModels/NFW.py
+++ b/pyHalo/Halos/HaloModels/NFW.py
@@ -33,7 +33,7 @@ class NFWFieldHalo(Halo):
         """
         rhos, rs, _ = self.lens_cosmo.NFW_params_physical(self.mass, self.c, self.z_eval)
         x = r/rs
-        return scaling * rhos / x / (1 + x) ** 2
+        return scaling * self._rescale_norm * rhos / x / (1 + x) ** 2
 
     @property
     def lenstronomy_ID(self):
diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 65c2ef9..468bf81 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -128,7 +128,7 @@ class TNFWFieldHalo(Halo):
         rhos, rs, _ = self.nfw_params
         tau = rt / rs
         x = r / rs
-        rho_nfw = rhos / x / (1 + x) ** 2
+        rho_nfw = self._rescale_norm * rhos / x / (1 + x) ** 2
         return scaling * rho_nfw * tau ** 2 / (tau ** 2 + x ** 2)
 
     def mass_3d(self, rmax, profile_args=None):
-- 
2.43.0


From 11f27b9962df006144b0db322891fb622cb7c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 14/56] fix: TNFW mass_2d works with current numpy

---
 pyHalo/Halos/HaloModels/TNFW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 468bf81..87a0797 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -94,7 +94,7 @@ class TNFWFieldHalo(Halo):
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
         sigma_crit_arcsec = sigma_crit_kpc * kpc_per_arcsec ** 2
-        return np.trapz(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
+        return np.trapezoid(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
 
     def deflection_angle(self, r_arcsec):
         """
-- 
2.43.0


From 8ccbe234b714de2e997d7aa3f7411a810be13e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 15/56] fix: pseudo-Jaffe field halos have one concentration
 too

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index c832b21..69e5f98 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -125,7 +125,7 @@ class PJaffeFieldhalo(PJaffeSubhalo):
 
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
-- 
2.43.0


From 647344ae3d19b2db02b3239f1f076740f90ca34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 16/56] fix: the maximum circular velocity follows a rescaling
 of the normalization

---
 pyHalo/Halos/halo_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 9d01995..7e5df70 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -79,6 +79,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
         elif self._rescaled_once:
             pass
         else:
@@ -91,6 +93,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
 
     @property
     @abstractmethod
-- 
2.43.0


From 2dc8a0f2cc04b9ca1fd06429120a64b097c38911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 17/56] fix: halos with imported TNFW parameters can be
 rescaled

Rescaling discarded the imported parameters, and the next query recursed forever
or replaced them with parameters derived from the mass.
---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index b56cde4..7dadfcd 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -24,12 +24,22 @@ class TNFWFromParams(TNFWSubhalo):
         x = x_kpc / self._kpc_per_arcsec_at_z
         y = y_kpc / self._kpc_per_arcsec_at_z
         keys_physical = (self.KEY_RV,self.KEY_RS,self.KEY_RHO_S,self.KEY_RV,self.KEY_RT)
-        self._params_physical = {key:args[key] for key in keys_physical}
-        self._c = self._params_physical[self.KEY_RV] / self._params_physical[self.KEY_RS]
+        self._params_input = {key:args[key] for key in keys_physical}
+        self._c = self._params_input[self.KEY_RV] / self._params_input[self.KEY_RS]
         self.id = args.get(self.KEY_ID)
         self._z_infall = args.get(self.KEY_Z_INFALL)
         super(TNFWFromParams, self).__init__(mass,x,y,r3d,z,sub_flag,lens_cosmo_instance,args,None,None,unique_tag)
 
+    @property
+    def params_physical(self):
+        """
+        The parameters passed to the class, with the density normalization rescaled if this was requested
+        """
+        if not hasattr(self, '_params_physical'):
+            self._params_physical = dict(self._params_input)
+            self._params_physical[self.KEY_RHO_S] *= self._rescale_norm
+        return self._params_physical
+
     def density_profile_3d(self, r, params_physical=None):
         """
         Computes the 3-D density profile of the halo
@@ -37,7 +47,7 @@ class TNFWFromParams(TNFWSubhalo):
         :return: the density profile in units M_sun / kpc^3
         """
 
-        _params = self._params_physical if params_physical is None else params_physical
+        _params = self.params_physical if params_physical is None else params_physical
 
         r_t = _params[self.KEY_RT]
         r_s = _params[self.KEY_RS]
@@ -73,9 +83,9 @@ class TNFWFromParams(TNFWSubhalo):
 
         if not hasattr(self, '_kwargs_lenstronomy'):
 
-            r_t = self.params_physical[self.KEY_RT]
-            r_s = self.params_physical[self.KEY_RS]
-            rho_s = self.params_physical[self.KEY_RHO_S]
+            r_t = self._params_input[self.KEY_RT]
+            r_s = self._params_input[self.KEY_RS]
+            rho_s = self._params_input[self.KEY_RHO_S]
 
             Rs_angle, theta_Rs = self.lens_cosmo.nfw_physical2angle_fromNFWparams(rho_s *1 / KPC_TO_MPC**3,r_s * KPC_TO_MPC,self.z)
 
-- 
2.43.0


From 4a221f4d6bc622f3335b21db2f043180f2236144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 18/56] fix: profile_args of a hybrid halo is a property, as in
 every halo class

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index d929b5f..6b1e709 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -335,8 +335,9 @@ class Hybrid(Halo):
             self._c = self.tnfw_halo.c
         return self._c
 
+    @property
     def profile_args(self):
-        return [self.tnfw_halo.profile_args(), self.tnfwc_halo.profile_args()]
+        return [self.tnfw_halo.profile_args, self.tnfwc_halo.profile_args]
 
     @property
     def lenstronomy_params(self):
-- 
2.43.0


From d466e51cec1cceea343229ef35290156779f68eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 19/56] fix: the mass and maximum circular velocity of halos
 with imported TNFW parameters use them

They were computed from parameters derived from the mass, unlike the density
profile and the lens model keywords.
---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index 7dadfcd..2fa429d 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -30,6 +30,13 @@ class TNFWFromParams(TNFWSubhalo):
         self._z_infall = args.get(self.KEY_Z_INFALL)
         super(TNFWFromParams, self).__init__(mass,x,y,r3d,z,sub_flag,lens_cosmo_instance,args,None,None,unique_tag)
 
+    @property
+    def nfw_params(self):
+        """
+        The density normalization, scale radius and virial radius passed to the class
+        """
+        return self._params_input[self.KEY_RHO_S], self._params_input[self.KEY_RS], self._params_input[self.KEY_RV]
+
     @property
     def params_physical(self):
         """
-- 
2.43.0


From 52c4dc8aa0ec952d72ad97f74a0da6f5d5e8eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 20/56] fix: a hybrid subhalo has the infall redshift of its
 components

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 6b1e709..6192859 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -297,6 +297,8 @@ class Hybrid(Halo):
                                      self.tnfw_halo.r3d, mdef, self.tnfw_halo.z,
                                      self.tnfw_halo.is_subhalo, self.tnfw_halo.lens_cosmo,
                                      self.tnfw_halo._args, self.tnfw_halo.unique_tag)
+        if self.is_subhalo:
+            self.set_infall_redshift(tnfw_halo.z_infall)
 
     @property
     def vmax_nfw(self):
-- 
2.43.0


From 40e42d740946f57b845144752977d1df0317783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 21/56] fix: Milky Way infall redshifts are finite for every
 mass ratio

The fitted mean diverges near a mass ratio of 10^-1.4, where the inverse of the
normal CDF returned plus or minus infinity.
---
 pyHalo/Halos/accretion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/accretion.py b/pyHalo/Halos/accretion.py
index 106b623..b0c9b7e 100644
--- a/pyHalo/Halos/accretion.py
+++ b/pyHalo/Halos/accretion.py
@@ -304,8 +304,8 @@ class InfallRedshiftDistributionBase(object):
         sig = self.z_inf_to_z_host_std(mass_ratio)
         bounds = [0.0, 15.0]
         _a, _b = (bounds[0] - mu) / sig, (bounds[1] - mu) / sig
-        _u = numpy.random.uniform(ndtr(_a), ndtr(_b))
-        z = float(mu + sig * ndtri(_u))
+        # the mean may lie many standard deviations outside the bounds, where the normal CDF is exactly zero or one
+        z = float(truncnorm.rvs(_a, _b, loc=mu, scale=sig))
         return self._z_lens + z
 
     @staticmethod
-- 
2.43.0


From bd00f8843ec0c7aacee588858199c99d0c1128e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 22/56] fix: warm concentration models do not share their
 default cold settings

---
 pyHalo/Halos/concentration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 8147402..144dbd1 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -363,6 +363,7 @@ class ConcentrationWDMPolynomial(_ConcentrationTurnover):
         :param scatter_dex: scatter in concentration in dex
         :param kwargs_cdm: keyword arguments for the CDM concentration class
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
@@ -407,6 +408,7 @@ class ConcentrationWDMHyperbolic(_ConcentrationTurnover):
         :param concentration_cdm_class:
         :param kwargs_cdm:
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
-- 
2.43.0


From 2c5a4e8527c83a88cb2959262057bce10758c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 23/56] fix: maximum-velocity radius of profiles with alpha = 2
 is defined

---
 .../transfer_function_density_profile.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index bead454..83ffca1 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -4,6 +4,7 @@ import numpy as np
 from scipy.special import hyp2f1
 from scipy.integrate import quad
 from scipy.interpolate import interp1d
+from scipy.optimize import newton
 
 
 # Implement the transfer function of subhalo density profile.
@@ -447,7 +448,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         if (beta == 3.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 2.919847688299723
+                    Rmax = 2.919847688299723
                 else:
                     status = 0
             else:
@@ -455,7 +456,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         elif (beta == 4.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 1.825255642519694
+                    Rmax = 1.825255642519694
                 else:
                     status = 0
             else:
-- 
2.43.0


From af83e2f26fcefdf3690e8eba288769c88e3dba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 24/56] fix: truncation radius uses the requested power of the
 density truncation

---
 .../galacticus_truncation/transfer_function_density_profile.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index 83ffca1..bdb8d36 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -836,6 +836,6 @@ def compute_r_te_and_f_t(Mbound, MvirInfall, RvirInfall, cInfall, alpha=1.0, bet
     # in good agreement with the fitting function, but is more reliable where the
     # fitting function is not calibrated to simulations.
     Mbound_dimensionless = Mbound / M0
-    r_te = Rs * _Truncation_Radius(Mbound_dimensionless, f_t, alpha, beta, gamma)
+    r_te = Rs * _Truncation_Radius(Mbound_dimensionless, f_t, alpha, beta, gamma, delta)
 
     return r_te, f_t
-- 
2.43.0


From d21cc005b2080f65c3e349dc2747d4b414062607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 25/56] fix: numerical total mass of a truncated profile works
 for arrays of truncation radii

---
 .../transfer_function_density_profile.py         | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index bdb8d36..f36befe 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -645,14 +645,20 @@ def _M_total_generalized_NFW_Truncated_dimensionless(tau, alpha=1.0, beta=3.0, g
         status = 0
 
     if (status == 0):
-        # Use numerical integration.
-        def integral(x):
-            return 4.0 * np.pi * x ** 2 \
+        # Use numerical integration over ln(x), in pieces around the two scales of the profile.
+        def integral(ln_x, tau_i):
+            x = np.exp(ln_x)
+            return 4.0 * np.pi * x ** 3 \
                    / x ** gamma \
                    / (1.0 + x ** alpha) ** ((beta - gamma) / alpha) \
-                   / (1.0 + (x / tau) ** delta)
+                   / (1.0 + (x / tau_i) ** delta)
 
-        mass = quad(integral, 0.0, np.inf)
+        def total_mass(tau_i):
+            low, high = np.sort([0.0, np.log(tau_i)])
+            edges = [low - 25.0, low, high, high + 25.0]
+            return sum(quad(integral, a, b, args=(tau_i,))[0] for a, b in zip(edges[:-1], edges[1:]))
+
+        mass = np.vectorize(total_mass, otypes=[float])(tau)
 
     return mass
 
-- 
2.43.0


From b6c293a4874d689d5b58aadbd837776b633b7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 26/56] fix: splashback radius uses the mean matter density at
 the redshift of the halo

---
 pyHalo/Halos/tidal_truncation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 3196f6a..2bb05c4 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -39,7 +39,9 @@ class TruncationSplashBack(object):
         h = self._lens_cosmo.cosmo.h
         nu200m = peaks.peakHeight(halo_mass * h, z)
         RspR200m_units_rvir, _ = splashback.splashbackModel('RspR200m', nu200m=nu200m, z=z, rspdef='sp-apr-mn')
-        r200m_mpc = self._lens_cosmo.rN_M(halo_mass * h, z, 200.0) / self._lens_cosmo.cosmo.astropy.Om0 ** (1./3)
+        # radius that encloses 200 times the mean matter density at redshift z
+        omega_m_z = self._lens_cosmo.cosmo.astropy.Om(z)
+        r200m_mpc = self._lens_cosmo.rN_M(halo_mass * h, z, 200.0) / omega_m_z ** (1./3)
         rt_kpc = RspR200m_units_rvir * r200m_mpc * 1e3
         return rt_kpc
 
-- 
2.43.0


From 3983b2ff3758969cc72bc5270c6441463decaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 27/56] fix: the Keeley24 bound mass never exceeds the infall
 mass

---
 pyHalo/Halos/galacticus_truncation/interp_mass_loss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
index a7f05b9..6943fcc 100644
--- a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
+++ b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
@@ -36,7 +36,8 @@ class InterpGalacticusKeeley24(object):
         scatter_dex = self.evaluate_scatter_dex(log10_concentration_infall, time_since_infall, host_concentration)
         scatter_dex = max(scatter_dex, 0.001)
         output = np.random.normal(mean, scatter_dex)
-        return output
+        # the bound mass can not exceed the infall mass
+        return np.minimum(output, 0.0)
 
     def evaluate_mean_mass_loss(self, log10_concentration_infall, time_since_infall, host_concentration):
         """
-- 
2.43.0


From cb471f60e207e1e00bc1422d9e8877c44beb3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 28/56] fix: TruncationGalacticusApproxCDM.truncation_radius
 uses the mass it is given

---
 pyHalo/Halos/tidal_truncation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 2bb05c4..a4334d0 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -573,7 +573,7 @@ class TruncationGalacticusApproxCDM(object):
         :param z_eval:
         :return:
         """
-        m_bound = self.calculate_mbound(halo_mass)
+        m_bound = halo_mass * self.compute_f_bound
         _, rs, r200 = self._lens_cosmo.NFW_params_physical(halo_mass,
                                                         infall_concentration,
                                                         z_eval,
-- 
2.43.0


From de6a2f86be5626995f510b8532e7e94a80ef485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 29/56] fix: the truncation radius of a subhalo follows from
 the same bound mass as bound_mass_galacticus_definition for every Galacticus
 truncation model

---
 pyHalo/Halos/HaloModels/TNFW.py  | 10 +++-------
 pyHalo/Halos/tidal_truncation.py | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 87a0797..9e59c0f 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -323,12 +323,7 @@ class TNFWSubhalo(TNFWFieldHalo):
         Computes the mass inside the virial radius (with truncation effects included)
         :return: the mass inside r = c * r_s
         """
-        if self._truncation_class.name in ['TruncationGalacticus',
-                                            'TruncationGalacticusZinfall',
-                                           'TruncationGalacticusKeeley24',
-                                           'TruncationGalacticusApproxCDM']:
-            pass
-        else:
+        if not hasattr(self._truncation_class, 'calculate_mbound'):
             raise Exception('this method can only be called when using one of the TruncationGalacticus class')
         if not hasattr(self, '_mbound_galacticus_definition'):
             self._mbound_galacticus_definition = self._truncation_class.calculate_mbound(self)
@@ -340,7 +335,8 @@ class TNFWSubhalo(TNFWFieldHalo):
         See documentation in base class (Halos/halo_base.py)
         """
         if not hasattr(self, '_profile_args'):
-            if self._truncation_class.name == 'TruncationGalacticus':
+            if hasattr(self._truncation_class, 'truncation_radius_from_bound_mass'):
+                # use the same bound mass as bound_mass_galacticus_definition
                 mbound = self.bound_mass_galacticus_definition
                 truncation_radius_kpc = self._truncation_class.truncation_radius_from_bound_mass(self, mbound)
             else:
diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index a4334d0..d4a14e7 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -246,6 +246,15 @@ class TruncationGalacticusKeeley24(object):
         return self.truncation_radius(halo.mass, halo.c,
                                       halo.time_since_infall, self._chost, halo.z_eval)
 
+    def truncation_radius_from_bound_mass(self, halo, m_bound):
+        """
+        This method computes the truncation radius given the bound mass of a halo
+        :param halo: an instance of a Halo class
+        :param m_bound: the bound mass in solar masses
+        :return: the truncation radius in physical kpc
+        """
+        return self._truncation_radius(halo.mass, halo.c, np.log10(m_bound / halo.mass), halo.z_eval)
+
     def truncation_radius(self, halo_mass, infall_concentration,
                           time_since_infall, chost, z_eval):
         """
@@ -259,6 +268,18 @@ class TruncationGalacticusKeeley24(object):
         """
         log10c = np.log10(infall_concentration)
         log10mbound_over_minfall = self._mass_loss_interp(log10c, time_since_infall, chost)
+        return self._truncation_radius(halo_mass, infall_concentration, log10mbound_over_minfall, z_eval)
+
+    def _truncation_radius(self, halo_mass, infall_concentration, log10mbound_over_minfall, z_eval):
+        """
+
+        :param halo_mass: infall mass
+        :param infall_concentration: concentration at infall
+        :param log10mbound_over_minfall: log10 of the bound mass divided by the infall mass
+        :param z_eval: infall redshift
+        :return: the truncation radius in physical kpc
+        """
+        log10c = np.log10(infall_concentration)
         point = self._make_params_in_bounds_tau_evaluate((log10c, log10mbound_over_minfall))
         log10tau = float(self._tau_mf_interpolation(point))
         tau = 10 ** log10tau
-- 
2.43.0


From 2ff494a46b6f36d635fc8c55350591da14a0c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 30/56] fix: toSIDM_from_cross_section leaves objects without
 NFW parameters (e.g. point masses) as they are instead of failing

---
 pyHalo/realization_extensions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9b945c3..e56a6e7 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -729,12 +729,12 @@ class RealizationExtensions(object):
                     break
             else:
                 raise Exception('halo mass ' + str(np.log10(halo.mass)) + ' not inside the minimum/maximum mass ranges')
-            rhos, rs, _ = halo.nfw_params
-            if sidm_timescale_function is not None:
-                t_c = sidm_timescale_function(rhos, rs, sigma_eff)
-            else:
-                t_c = self._realization.lens_cosmo.sidm_collapse_timescale(rhos, rs, sigma_eff)
             if halo.mdef in ['TNFW', 'NFW']:
+                rhos, rs, _ = halo.nfw_params
+                if sidm_timescale_function is not None:
+                    t_c = sidm_timescale_function(rhos, rs, sigma_eff)
+                else:
+                    t_c = self._realization.lens_cosmo.sidm_collapse_timescale(rhos, rs, sigma_eff)
                 subhalo_evolution_scaling = 10**log10_subhalo_time_scaling
                 new_halo = self.toSIDM_single_halo(halo,
                                                t_c=t_c,
-- 
2.43.0


From 35df0a4a6061a308fed3798cf9978ae9fbd982f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 31/56] fix: subhalos turned into isothermal or galaxy profiles
 keep their infall redshift

---
 pyHalo/Halos/HaloModels/sis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 2ac5198..66d6d01 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -29,6 +29,8 @@ class SIS(Halo):
                                   args=nfw_halo._args,
                                   unique_tag=nfw_halo.unique_tag,
                                   fixed_position=nfw_halo.fixed_position)
+        if self.is_subhalo:
+            self.set_infall_redshift(nfw_halo.z_infall)
 
     @property
     def profile_args(self):
@@ -92,6 +94,8 @@ class MassiveGalaxy(Halo):
                                   args=halo_args,
                                   unique_tag=nfw_halo.unique_tag,
                                   fixed_position=nfw_halo.fixed_position)
+        if self.is_subhalo:
+            self.set_infall_redshift(nfw_halo.z_infall)
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
         """
-- 
2.43.0


From b6ebb24b0492eb05dc0a1cc4bcf546b27920508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 32/56] fix: add_core_collapsed_halos keeps infall redshift,
 bound mass and concentration of GNFW and SPL_CORE halos and does not modify
 the original halos

---
 pyHalo/realization_extensions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index e56a6e7..81eda70 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -886,8 +886,9 @@ class RealizationExtensions(object):
 
                 else:
                     truncation_class = halo._truncation_class
-                    concentration_class = halo._concentration_class
-                    halo.update_args(kwargs_halo)
+                    concentration_class = ConcentrationConstant(None, halo.c)
+                    args = dict(halo.args_profile)
+                    args.update(kwargs_halo)
                     if is_subhalo:
                         new_halo = subhalo_model(halo.mass,
                                                halo.x,
@@ -896,10 +897,13 @@ class RealizationExtensions(object):
                                                halo.z,
                                                is_subhalo,
                                                halo.lens_cosmo,
-                                               halo.args_profile,
+                                               args,
                                                truncation_class,
                                                concentration_class,
                                                halo.unique_tag)
+                        new_halo.set_infall_redshift(halo.z_infall)
+                        if halo.mdef == 'TNFW':
+                            new_halo.set_bound_mass(halo.bound_mass)
                     else:
                         new_halo = fieldhalo_model(halo.mass,
                                                  halo.x,
@@ -908,7 +912,7 @@ class RealizationExtensions(object):
                                                  halo.z,
                                                  is_subhalo,
                                                  halo.lens_cosmo,
-                                                 halo.args_profile,
+                                                 args,
                                                  truncation_class,
                                                  concentration_class,
                                                  halo.unique_tag)
-- 
2.43.0


From 2a5c620de70a2fd4c77f6dd71aa8b80c8e68c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 33/56] fix: add_cored_halos replaces only the listed halos for
 every profile and keeps their 3D position

---
 pyHalo/realization_extensions.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 81eda70..ae4afe6 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -274,20 +274,18 @@ class RealizationExtensions(object):
         truncation_class = None
         args = {'beta': beta}
         for i, halo in enumerate(self._realization.halos):
-            concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
-                                                        halo.c)
-            if core_density_profile == 'CNFW':
-                if i in halo_index_list:
-                    r3d = None
-                    new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
-                                           halo.is_subhalo, self._realization.lens_cosmo, args,
-                                           truncation_class, concentration_class, halo.unique_tag)
-                    if halo.is_subhalo:
-                        new_halo.set_bound_mass(halo.bound_mass)
-                        new_halo.set_infall_redshift(halo.z_infall)
-                    new_halo_list.append(new_halo)
-                else:
-                    new_halo_list.append(halo)
+            if i not in halo_index_list:
+                new_halo_list.append(halo)
+            elif core_density_profile == 'CNFW':
+                concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
+                                                            halo.c)
+                new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, halo.r3d, halo.z,
+                                       halo.is_subhalo, self._realization.lens_cosmo, args,
+                                       truncation_class, concentration_class, halo.unique_tag)
+                if halo.is_subhalo:
+                    new_halo.set_bound_mass(halo.bound_mass)
+                    new_halo.set_infall_redshift(halo.z_infall)
+                new_halo_list.append(new_halo)
             else:
                 new_halo = self.toSIDM_single_halo(halo,
                                                    None,
-- 
2.43.0


From 65c3618c93cbc8ffa873dda0ee4845853e2a5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 34/56] fix: add_black_holes applies the minimum and maximum
 black hole mass to the black holes of unresolved halos

---
 pyHalo/realization_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index ae4afe6..ecec239 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -143,9 +143,10 @@ class RealizationExtensions(object):
             kpc_per_arcsec = self._realization.lens_cosmo.cosmo.kpc_proper_per_asec(zi)
             x = x_kpc / kpc_per_arcsec
             y = y_kpc / kpc_per_arcsec
-            for m_bh, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+            for m_halo, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+                m_bh = min(10 ** log10_mass_maximum, m_halo * 10 ** log10_mass_ratio)
                 if m_bh > 10 ** log10_min_mbh:
-                    mbh = BlackHole(m_bh * 10 ** log10_mass_ratio,
+                    mbh = BlackHole(m_bh,
                                     x_bh,
                                     y_bh,
                                     r3d=None,
-- 
2.43.0


From f664e85899bf94f3c2668e591a23392c3e46e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 35/56] fix: batched tidal mass loss clips the host
 concentration to the calibrated range, like the halo-by-halo path

---
 pyHalo/Halos/batch_halo_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 3462efe..e83833f 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -270,7 +270,7 @@ def galacticus_mass_loss_vectorized(mass_loss_interp, log10c, t_or_dz, chost):
     if cls == 'InterpGalacticus':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.0, 8.1)
-        chost = min(max(chost, 4.0), 9.0)
+        chost = min(max(chost, 4.0), 8.0)
     elif cls == 'InterpGalacticusZinfall':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.001, 9.5)
-- 
2.43.0


From 7b091bf8060d55741b51c187ef30ca63e21a048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 36/56] fix: precompute_realization leaves TNFW halos with
 their own truncation untouched

---
 pyHalo/Halos/batch_halo_util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index e83833f..99f0c21 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -625,17 +625,21 @@ def precompute_realization(realization, kwargs_halo_model=None):
         key = 'truncation_model_subhalos' if is_subhalo else 'truncation_model_field_halos'
         return kwargs_halo_model.get(key, None)
 
-    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo]
-    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo]
+    t_sub = _truncation_for(True)
+    t_field = _truncation_for(False)
+    # halos that were not rendered with the truncation model of the realization (for example TNFW halos with parameters
+    # imported from a simulation) are left untouched
+    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo
+                 and getattr(h, '_truncation_class', None) is t_sub]
+    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo
+                  and getattr(h, '_truncation_class', None) is t_field]
     tnfwc = [h for h in realization.halos if h.mdef == 'TNFWC'
              and 'sidm_timescale' in getattr(h, '_args', {})]
     nfw = [h for h in realization.halos if h.mdef == 'NFW']
 
-    t_sub = _truncation_for(True)
     if len(tnfw_subs) > 0 and t_sub is not None and \
             getattr(t_sub, 'name', None) in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
         precompute_tnfw_subhalos(tnfw_subs, t_sub)
-    t_field = _truncation_for(False)
     if len(tnfw_field) > 0 and t_field is not None:
         precompute_tnfw_field_halos(tnfw_field, t_field)
     if len(tnfwc) > 0:
-- 
2.43.0


From c86fe86b3372dadf98a4b6944a3f7e83c6c6995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 37/56] fix: preset models do not modify the caller's (or the
 default) keyword argument dictionaries

---
 pyHalo/PresetModels/cdm.py | 13 +++++++++++++
 pyHalo/PresetModels/wdm.py | 15 +++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 27d4927..92de3f0 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -77,6 +77,12 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     :return: a realization of dark matter halos
     """
+    # THE CALLER'S KEYWORD ARGUMENTS (AND THE DEFAULTS) ARE NOT MODIFIED
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos)
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
+    kwargs_infall_model = dict(kwargs_infall_model)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -227,6 +233,9 @@ def CDMCorrelatedStructure(z_lens, z_source, log_mlow=6., log_mhigh=10.,
     :param mass_threshold_sis: the mass threshold above which NFW profiles become SIS
     :return:
     """
+    # THE CALLER'S KEYWORD ARGUMENTS (AND THE DEFAULTS) ARE NOT MODIFIED
+    kwargs_concentration_model = dict(kwargs_concentration_model)
+    kwargs_truncation_model = dict(kwargs_truncation_model)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -352,6 +361,10 @@ def CDMBinned(z_lens, z_source,
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     :return: a realization of dark matter halos
     """
+    # THE CALLER'S KEYWORD ARGUMENTS (AND THE DEFAULTS) ARE NOT MODIFIED
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
+    kwargs_infall_model = dict(kwargs_infall_model)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index ac55575..e639b2f 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -85,6 +85,14 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     :param mass_threshold_sis: add SIS halos above this scale
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     """
+    # THE CALLER'S KEYWORD ARGUMENTS (AND THE DEFAULTS) ARE NOT MODIFIED
+    kwargs_mass_function_subhalos = dict(kwargs_mass_function_subhalos)
+    kwargs_mass_function_fieldhalos = dict(kwargs_mass_function_fieldhalos)
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos)
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_infall_model = dict(kwargs_infall_model)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -264,6 +272,9 @@ def WDM_mixed(z_lens, z_source, log_mc, mixed_DM_frac, sigma_sub=0.025, log_mlow
     :param include_prompt_cusps: bool; include prompt cusps inside halos
     :return:
     """
+    # THE CALLER'S KEYWORD ARGUMENTS (AND THE DEFAULTS) ARE NOT MODIFIED
+    kwargs_mass_function_subhalos = dict(kwargs_mass_function_subhalos)
+    kwargs_mass_function_fieldhalos = dict(kwargs_mass_function_fieldhalos)
     params = ['a_wdm', 'b_wdm', 'c_wdm']
     values_keeley_2023 = [0.5, 0.8, -3.0]
     for i, param in enumerate(params):
@@ -359,6 +370,10 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     :param mass_threshold_sis: the mass threshold above which NFW profiles become SIS
     :return:
     """
+    # THE CALLER'S KEYWORD ARGUMENTS (AND THE DEFAULTS) ARE NOT MODIFIED
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
+    kwargs_infall_model = dict(kwargs_infall_model)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
-- 
2.43.0


From 268b9f75587350df819df4bb36c676b49d65d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 38/56] fix: preset models pass the host halo mass to the
 DIRECT_INFALL infall model

---
 pyHalo/PresetModels/cdm.py | 4 ++--
 pyHalo/PresetModels/wdm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 92de3f0..8d6f993 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -88,7 +88,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
-    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
+    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
@@ -370,7 +370,7 @@ def CDMBinned(z_lens, z_source,
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
-    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
+    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index e639b2f..2c11521 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -98,7 +98,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
-    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
+    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
@@ -379,7 +379,7 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
-    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
+    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
-- 
2.43.0


From 745dc3718e38cab579b0e533593746025c58af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 39/56] fix: setup_infall_model does not modify the caller's
 keyword arguments

---
 pyHalo/Halos/lens_cosmo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 794680e..827e5e7 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -88,6 +88,7 @@ class LensCosmo(object):
         :return:
         """
         self._infall_pdf_set = True
+        kwargs_infall_model = dict(kwargs_infall_model)
         if infall_redshift_model in ['DIRECT_INFALL', 'HYBRID_INFALL']:
             if 'm_host' in list(kwargs_infall_model.keys()):
                 kwargs_infall_model['log_m_host'] = numpy.log10(kwargs_infall_model['m_host'])
-- 
2.43.0


From c9c0eedd997573d2fef3e1bc95b74d09ba78fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 40/56] fix: CDM keeps the concentration scatter requested by
 the user

---
 pyHalo/PresetModels/cdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 8d6f993..ca69b43 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -109,13 +109,13 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
     scatter_dex_subhalos = 0.2
-    kwargs_mc_subs['scatter_dex'] = scatter_dex_subhalos
+    kwargs_mc_subs.setdefault('scatter_dex', scatter_dex_subhalos)
     concentration_model_subhalos = model_subhalos(**kwargs_mc_subs)
 
     model_fieldhalos, kwargs_mc_field = preset_concentration_models(concentration_model_fieldhalos,
                                                                     kwargs_concentration_model_fieldhalos)
     scatter_dex_fieldhalos = 0.2
-    kwargs_mc_field['scatter_dex'] = scatter_dex_fieldhalos
+    kwargs_mc_field.setdefault('scatter_dex', scatter_dex_fieldhalos)
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
     if c_host is None:
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
-- 
2.43.0


From 2a0eb630a7a0fef4d13b571ef5bb9780a73c09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 41/56] fix: constant concentration model can be used with the
 preset models

---
 pyHalo/Halos/concentration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 144dbd1..52e3cd2 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -13,7 +13,7 @@ __all__ = ['ConcentrationDiemerJoyce',
 
 class ConcentrationConstant(object):
     name = 'CONSTANT'
-    def __init__(self, cosmo, c):
+    def __init__(self, cosmo, c, *args, **kwargs):
         self._c = c
     def nfw_concentration(self, *args, **kwargs):
         return self._c
-- 
2.43.0


From 4d5d1164e2fb491807f218752ce93d0f41a50bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 42/56] fix: CDM applies delta_power_law_index to the subhalo
 mass function, as documented

---
 pyHalo/PresetModels/cdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index ca69b43..a607b73 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -144,7 +144,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
                             'm_pivot': 10 ** 8,
                             'power_law_index': shmf_log_slope,
                             'log_m_host': log_m_host,
-                            'delta_power_law_index': 0.0,
+                            'delta_power_law_index': delta_power_law_index,
                             'host_scaling_factor': host_scaling_factor,
                             'redshift_scaling_factor': redshift_scaling_factor,
                             'draw_poisson': draw_poisson}
-- 
2.43.0


From a701cacecae38f06a8fd31eecf4ce8dd7e14b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 43/56] fix: WDM keeps the CDM concentration relation of the
 selected concentration model

---
 pyHalo/PresetModels/wdm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index 2c11521..eceecca 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -121,7 +121,8 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_subs['concentration_cdm_class'] = concentration_model_CDM
+    if concentration_model_subhalos != 'LUDLOW_WDM':
+        kwargs_mc_subs.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_subhalos = model_subhalos(**kwargs_mc_subs)
 
     model_fieldhalos, kwargs_mc_field = preset_concentration_models(concentration_model_fieldhalos,
@@ -129,7 +130,8 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_mc_field['cosmo'] = pyhalo.astropy_cosmo
     kwargs_mc_field['log_mc'] = log_mc
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_field['concentration_cdm_class'] = concentration_model_CDM
+    if concentration_model_fieldhalos != 'LUDLOW_WDM':
+        kwargs_mc_field.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
     if c_host is None:
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
-- 
2.43.0


From aff44442c981f1b7e10448bd7f2e2adfce49ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:00 +0000
Subject: [PATCH 44/56] fix: nodedata_select_subhalo selects the node with the
 requested id

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index cf5d97b..f228dfb 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -9,7 +9,7 @@ def nodedata_apply_filter(nodedata,nodefilter,galacticus_util = None):
 def nodedata_select_subhalo(nodedata,id, galacticus_util = None):
     """Selects a subhalo specified by an id, returns a dictionary of the subhalo's properties"""
     gutil = GalacticusUtil() if galacticus_util is None else galacticus_util
-    idfilter = nodedata[nodedata[gutil.PARAM_NODE_ID] == id]
+    idfilter = nodedata[gutil.PARAM_NODE_ID] == id
     return {key:val[idfilter][0] for key,val in nodedata.items()}
 
 def nodedata_filter_tree(nodedata, treeindex,galacticus_util = None):
-- 
2.43.0


From fa0d790e0152c2ef6ae447b84b370f0ac97dc8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:00 +0000
Subject: [PATCH 45/56] fix: galacticus filters for host halos and virialized
 subhalos use the parameter names of the given GalacticusUtil

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index f228dfb..3307a0f 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -24,7 +24,7 @@ def nodedata_filter_subhalos(nodedata,galacticus_util= None):
 
 def nodedata_filter_halos(nodedata,galacticus_util = None):
     """Returns a filter that excludes all but halo (excludes sub-halos)"""
-    return np.logical_not(nodedata_filter_subhalos(nodedata))
+    return np.logical_not(nodedata_filter_subhalos(nodedata, galacticus_util))
 
 def nodedata_filter_range(nodedata,range,key,galacticus_util=None):
     """Returns a filter that excludes nodes not within the given range for a specified parameter"""
@@ -43,7 +43,7 @@ def nodedata_filter_virialized(nodedata,galacticus_util= None):
     r = np.linalg.norm(rvec,axis=0)
 
     #Filter halos and get there virial radii
-    filtered_halos = nodedata_filter_halos(nodedata)
+    filtered_halos = nodedata_filter_halos(nodedata, gutil)
     rv_halos = nodedata[gutil.PARAM_RADIUS_VIRIAL][filtered_halos]
     halo_output_n = nodedata[gutil.PARAM_TREE_ORDER]
 
-- 
2.43.0


From c6ffb7e7587681e169f7d0e5983ae516205ab63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 46/56] fix: Galacticus outputs with a single tree can be read

---
 pyHalo/Halos/galacticus_util/galacticus_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_util.py b/pyHalo/Halos/galacticus_util/galacticus_util.py
index 3e2849c..d56ec02 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_util.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_util.py
@@ -143,8 +143,10 @@ class GalacticusUtil():
             node_tree_order[start:stop] = n - 1
             node_tree_index[start:stop] = tree_index[n - 1] 
 
-        node_tree_order[stop:] = n
-        node_tree_index[stop:] = tree_index[n]
+        # the last (possibly the only) tree extends to the last node
+        n = len(tree_start) - 1
+        node_tree_order[tree_start[n]:] = n
+        node_tree_index[tree_start[n]:] = tree_index[n]
 
         node_index = np.arange(total_count)
 
-- 
2.43.0


From 0fd507351a776f681cf3f7c10da9365d6c8879a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 47/56] fix: DMFromGalacticus renders no subhalos with the ULDM
 line-of-sight model

---
 pyHalo/PresetModels/external.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyHalo/PresetModels/external.py b/pyHalo/PresetModels/external.py
index b890f98..d963b0e 100644
--- a/pyHalo/PresetModels/external.py
+++ b/pyHalo/PresetModels/external.py
@@ -89,6 +89,9 @@ def DMFromGalacticus(galacticus_hdf5,z_source,cone_opening_angle_arcsec,tree_ind
 
     # we create a realization of only line-of-sight halos by setting sigma_sub = 0.0
     kwargs_los['sigma_sub'] = 0.0
+    if preset_model_los == 'ULDM':
+        # this preset model specifies the amplitude through log10_sigma_sub, which takes precedence over sigma_sub
+        kwargs_los['log10_sigma_sub'] = None
     kwargs_los["cone_opening_angle_arcsec"] = cone_opening_angle_arcsec
     kwargs_los["z_lens"] = z_lens
     kwargs_los["z_source"] = z_source
-- 
2.43.0


From 3d10200d610a7a5bcb16c2552dc0543d433f7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 48/56] fix: preset model DMEmulator refers to the existing
 emulator model

---
 pyHalo/preset_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/preset_models.py b/pyHalo/preset_models.py
index 3138a40..9d45fd2 100644
--- a/pyHalo/preset_models.py
+++ b/pyHalo/preset_models.py
@@ -34,8 +34,8 @@ def preset_model_from_name(name, custom_function=None):
         from pyHalo.PresetModels.uldm import ULDM
         return ULDM
     elif name == 'DMEmulator':
-        from pyHalo.PresetModels.external import DMFromEmulator
-        return DMFromEmulator
+        from pyHalo.PresetModels.external import DMSubhalosFromEmulator
+        return DMSubhalosFromEmulator
     elif name == 'WDM_mixed':
         from pyHalo.PresetModels.wdm import WDM_mixed
         return WDM_mixed
-- 
2.43.0


From 2d44f11490e9f62afed42237e93fcfa2ebc227a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:26 +0000
Subject: [PATCH 49/56] fix: correlated objects keep the positions drawn for
 them

---
 pyHalo/Rendering/correlated_structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 858adef..6e26efd 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -65,8 +65,7 @@ class CorrelatedStructure(RenderingClassBase):
             _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
             # find all halos within rmax of coordinate
-            _x, _y = self._halo_x, self._halo_y
-            dr = np.hypot(_x - x_angle, _y - y_angle)
+            dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
             indexes = list(np.where(np.logical_and(self._halo_redshifts == z, dr < rmax))[0])
             rescale_indexes += list(indexes)
             if len(_m) > 0:
-- 
2.43.0


From f04ed8aa6d5803e5e1fd85e0f02168e9d8fa2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:26 +0000
Subject: [PATCH 50/56] fix: the area of a convergence pixel follows from the
 pixels inside the aperture

---
 pyHalo/Rendering/correlated_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 6e26efd..d7584ed 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -171,7 +171,7 @@ class CorrelatedStructure(RenderingClassBase):
         pdf[inds_zero] = 0.
         inds_nan = np.where(np.isnan(pdf))
         pdf[inds_nan] = 0.
-        npixels = len(inds_zero)
+        npixels = len(rr) - len(inds_zero)
         effective_area = np.pi * rendering_radius ** 2 / npixels
         mass_in_area = self._mass_in_area(pdf, z, effective_area)
         return pdf.reshape(shape0), mass_in_area, halo_indexes
-- 
2.43.0


From 2d9a9518b2930408fd9a224576e5578b3d245908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:26 +0000
Subject: [PATCH 51/56] fix: halos lose the mass fraction in correlated
 structure even if the last plane is empty

---
 pyHalo/Rendering/correlated_structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index d7584ed..77a0420 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -58,11 +58,13 @@ class CorrelatedStructure(RenderingClassBase):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
         delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
         rescale_indexes = []
+        # the mass fraction in correlated structure is the same at every lens plane
+        rescale_factor = 1. - self._kwargs_mass_function['mass_fraction']
         for z, dz in zip(plane_redshifts, delta_z):
             d = self._lens_cosmo.cosmo.D_C_transverse(z)
             x_angle = x_center_interp(d)
             y_angle = y_center_interp(d)
-            _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
+            _m, _x, _y, halo_inds, _ = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
             # find all halos within rmax of coordinate
             dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
-- 
2.43.0


From c3ec32029ea6ffe92f2c4c81d6594beab2f95cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:40 +0000
Subject: [PATCH 52/56] fix: clustered primordial black holes follow the
 requested mass function

---
 pyHalo/realization_extensions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index ecec239..0ec8015 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1147,14 +1147,16 @@ class RealizationExtensions(object):
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
+            mass_function_model = DeltaFunction
         elif mass_function_type == 'GAUSSIAN':
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['logM_sigma'] = logM_pbh_sigma
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
+            mass_function_model = Gaussian
         else:
             raise ValueError('mass_function_type must be either DELTA or GAUSSIAN')
-        realization_with_clustering = self.add_correlated_structure(DeltaFunction,
+        realization_with_clustering = self.add_correlated_structure(mass_function_model,
                                                                          kwargs_pbh_mass_function,
                                                                          mass_definition,
                                                                         x_image_interp_list,
-- 
2.43.0


From fecfa5b0030ca20d44776ddddec278302912d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:40 +0000
Subject: [PATCH 53/56] fix: every image has its own rendering radius for
 clustered primordial black holes

---
 pyHalo/realization_extensions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 0ec8015..813f109 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1019,8 +1019,10 @@ class RealizationExtensions(object):
         Adds structure along the line of sight with a spatial distribution that tracks the dark matter density at each
         lens plane
 
+        :param r_max: the radius of the rendering region in arcsec; either one number, or one per image
         """
 
+        r_max_list = [r_max] * len(x_image_interp_list) if np.ndim(r_max) == 0 else r_max
         realization_copy = deepcopy(self._realization)
         lens_plane_redshifts, delta_z_list = generate_lens_plane_redshifts(self._realization.lens_cosmo.z_lens,
                                                                            self._realization.lens_cosmo.z_source)
@@ -1028,9 +1030,9 @@ class RealizationExtensions(object):
                  self._realization.geometry, self._realization.lens_cosmo, lens_plane_redshifts,
                                                    delta_z_list, self._realization)
         rescale_indicies = []
-        for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
+        for image_index, (x_image_interp, y_image_interp, r_max_image) in enumerate(zip(x_image_interp_list, y_image_interp_list, r_max_list)):
             masses, x, y, r3d, redshifts, subhalo_flag, rescale_factor, _rescale_indicies = correlated_structure.render(
-                r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
+                r_max_image, x_image_interp, y_image_interp, arcsec_per_pixel)
             rescale_indicies += list(_rescale_indicies)
             mdefs = [mass_definition] * len(masses)
             kwargs_halo_model = {'truncation_model': None, 'concentration_model': None, 'kwargs_density_profile': {}}
@@ -1162,7 +1164,7 @@ class RealizationExtensions(object):
                                                                         x_image_interp_list,
                                                                         y_image_interp_list,
                                                                          arcsec_per_pixel,
-                                                                            r_max,
+                                                                            r_max_arcsec,
                                                                          rescale_normalizations)
         return realization_with_clustering.join(realization_smooth)
 
-- 
2.43.0


From 8913d8c92d9adbb3a5ffca2d9ef546eea6375d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:40 +0000
Subject: [PATCH 54/56] fix: ULDM fluctuations stay with their image if an
 aperture is empty

---
 pyHalo/realization_extensions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 813f109..0f360f0 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1206,7 +1206,6 @@ def _get_number_flucs(realization, de_Broglie_wavelength, fluctuation_size_scale
         area_aperture = np.pi*r_kpc**2 # aperture area
         n_flucs_expected = n_fluc_scale*area_aperture/fluc_area #number of expected fluctuations per aperture
         n_flucs = np.random.poisson(n_flucs_expected,n_images) #draw number of fluctuations from poisson distribution for each image
-        n_flucs = n_flucs[n_flucs!=0] #get rid of aperture if zero fluctuations within it
 
     return n_flucs
 
-- 
2.43.0


From d314bab3cd9315a0657eafa966ea1f3b07fff3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:16 +0000
Subject: [PATCH 55/56] fix: ray paths stop at the lens planes if their
 redshifts are given as an array

---
 pyHalo/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index eff890e..e64b5de 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -189,7 +189,7 @@ def compute_comoving_ray_path(x_coordinate, y_coordinate, lens_model, kwargs_len
         if cosmo is None:
             cosmo = Cosmology()
 
-        redshift_list = lens_model.redshift_list + [zsource]
+        redshift_list = list(lens_model.redshift_list) + [zsource]
         zstep = lenscone_default.default_z_step
         finely_sampled_redshifts = np.linspace(zstep, zsource - zstep, 50)
         all_redshifts = np.unique(np.append(redshift_list, finely_sampled_redshifts))
-- 
2.43.0


From 1431ed34a29ee825b511ddb78a9bf995d3e250bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:43 +0000
Subject: [PATCH 56/56] fix: projected mass of core-collapsed halos mixes kpc
 with square arcsec

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 564cb73..0eaba88 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -96,9 +96,9 @@ class CoreCollapsedHalo(Halo):
 
     def mass_2d(self, rmax, num_steps=1000):
         """
-        Computes the 2-D density profile of the halo
-        :param r: distance from center of halo [kpc]
-        :return: the density profile in units M_sun / kpc^3
+        Computes the projected mass inside a cylinder
+        :param rmax: the radius of the cylinder [kpc]
+        :return: the mass in units M_sun
         """
         if rmax == 'r200':
             rmax = self.nfw_params[-1]
@@ -106,9 +106,7 @@ class CoreCollapsedHalo(Halo):
         kappa = self.kappa(r)
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
-        sigma_crit_arcsec = (sigma_crit_kpc *
-                             self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z) ** 2)
-        return np.trapezoid(kappa * 2 * np.pi * r, r) * sigma_crit_arcsec
+        return np.trapezoid(kappa * 2 * np.pi * r, r) * sigma_crit_kpc
 
     @property
     def c(self):
-- 
2.43.0

