From 12773c96254bbba8bc074bdbd6cb1b0e6678f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 01/66] fix: do not keep stale pixels when an observation
 update fails

update_pixels left the pixel list of the previous image/weight/jacobian
in place when make_pixels raised, e.g. because no weight is positive.
---
 ngmix/observation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index e21b580..5812401 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -818,6 +818,9 @@ class Observation(MetadataMixin):
             self._pixels = None
             return
 
+        # make_pixels can raise, don't leave the old pixels in place
+        self._pixels = None
+
         pixels = make_pixels(
             self.image,
             self.weight,
-- 
2.43.0


From 9e14f42d64527f9ea5a350e45d90debfbe8ee168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 02/66] fix: Observation equality when only one side has an
 optional attribute

The presence of bmask, psf, gmix, ... was checked twice on self and never
on the other observation, and images of different shape were broadcast.
---
 ngmix/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 5812401..653d4bf 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -763,12 +763,14 @@ class Observation(MetadataMixin):
                 self_has = obs_has = True
             else:
                 self_has = getattr(self, has)()
-                obs_has = getattr(self, has)()
+                obs_has = getattr(obs, has)()
             if self_has or obs_has:
                 if self_has and obs_has:
 
                     self_data = getattr(self, attr)
                     obs_data = getattr(obs, attr)
+                    if atype == 'array' and self_data.shape != obs_data.shape:
+                        return False
                     if not np.all(self_data == obs_data):
                         return False
                 else:
-- 
2.43.0


From c23370eec80d6e6f9ebbe1507052b0091751198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 03/66] fix: GMix equality for different numbers of gaussians

A one gaussian mixture was broadcast against the other mixture and could
compare equal to it; other combinations raised an error.
---
 ngmix/gmix/gmix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index e0b8107..0476b1e 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -434,6 +434,9 @@ class GMix(object):
         if not isinstance(gm, GMix):
             raise ValueError(f'expected GMix, got {type(gm)}')
 
+        if len(self) != len(gm):
+            return False
+
         self_data = self.get_data()
         gm_data = gm.get_data()
 
-- 
2.43.0


From 4b1936c7ba3ff32fd52cc8b3fe4fd0b76a957109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 04/66] fix: copies of model mixtures keep changes made after
 filling

GMixModel, GMixCM and GMixCoellip copies were rebuilt from the parameters
of the last fill, losing e.g. set_flux, get_sheared and make_round.
---
 ngmix/gmix/gmix.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 0476b1e..3876bc7 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -937,6 +937,8 @@ class GMixModel(GMix):
         Get a new GMix with the same parameters
         """
         gmix = GMixModel(self._pars, self._model_name)
+        # the gaussians may have been modified since they were filled
+        gmix._data[:] = self._data[:]
         return gmix
 
     def set_cen(self, row, col):
@@ -979,7 +981,10 @@ class GMixCM(GMixModel):
         """
         Get a new GMix with the same parameters
         """
-        return GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        gmix = GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        # the gaussians may have been modified since they were filled
+        gmix._data[:] = self._data[:]
+        return gmix
 
     def _fill(self, pars):
         """
@@ -1064,6 +1069,8 @@ class GMixCoellip(GMixModel):
         Get a new GMix with the same parameters
         """
         gmix = GMixCoellip(self._pars)
+        # the gaussians may have been modified since they were filled
+        gmix._data[:] = self._data[:]
         return gmix
 
 
-- 
2.43.0


From 27e7d910dea9009342c08371d333ffd3ee749f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 05/66] fix: a failed GMix fill leaves the mixture as it was

The parameters were replaced before the fill function could raise, so
the gaussians no longer matched them and the mixture could not be copied.
---
 ngmix/gmix/gmix.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 3876bc7..dffd53f 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -404,12 +404,14 @@ class GMix(object):
             The parameters
         """
 
-        self._pars[:] = pars
+        # this can raise, so keep our parameters until it worked
+        pars = np.array(pars, dtype="f8")
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._pars,
+            gm, pars,
         )
+        self._pars[:] = pars
 
     def copy(self):
         """
@@ -997,12 +999,14 @@ class GMixCM(GMixModel):
             The parameters
         """
 
-        self._pars[:] = pars
+        # this can raise, so keep our parameters until it worked
+        pars = np.array(pars, dtype="f8")
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._fracdev, self._TdByTe, self._Tfactor, self._pars,
+            gm, self._fracdev, self._TdByTe, self._Tfactor, pars,
         )
+        self._pars[:] = pars
 
     def __repr__(self):
         rep = super(GMixCM, self).__repr__()
-- 
2.43.0


From 17f3e3d62f04b91faa7b371a4ee43e8fbdfbbcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 06/66] fix: a mixture with an invalid gaussian always raises
 when evaluated

The norms of the gaussians before the invalid one were already flagged as
set, so only the first evaluation raised and later ones used NaNs.
---
 ngmix/gmix/gmix_nb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix/gmix_nb.py b/ngmix/gmix/gmix_nb.py
index c444e26..b7017ca 100644
--- a/ngmix/gmix/gmix_nb.py
+++ b/ngmix/gmix/gmix_nb.py
@@ -174,8 +174,10 @@ def gmix_set_norms(gmix):
     gmix:
        gaussian mixture
     """
-    for gauss in gmix:
-        gauss2d_set_norm(gauss)
+    # norm_set is only checked for the first gaussian, so do it last.  If one of
+    # the others is not valid, the mixture must not look like the norms are set
+    for i in range(gmix.size - 1, -1, -1):
+        gauss2d_set_norm(gmix[i])
 
 
 @njit
-- 
2.43.0


From 7de19084d58ee8e42fd1f2421f871230ad88c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 07/66] fix: make_round sets the determinants of the rounded
 gaussians

The old determinants were kept, so the round mixture had the wrong
normalization if preserve_size was set or the shapes of the gaussians
differ from the mean.
---
 ngmix/gmix/gmix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index dffd53f..2bacb2f 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -576,7 +576,7 @@ class GMix(object):
 
         gdata = gm.get_data()
 
-        # make sure the determinant gets reset
+        # make sure the norms get reset
         gdata["norm_set"] = 0
 
         ngauss = len(gm)
@@ -585,6 +585,7 @@ class GMix(object):
             gdata["irc"][i] = 0.0
             gdata["irr"][i] = 0.5 * Ti * factor
             gdata["icc"][i] = 0.5 * Ti * factor
+            gdata["det"][i] = gdata["irr"][i] * gdata["icc"][i]
 
         return gm
 
-- 
2.43.0


From cbbf98dfcc4487c41d2bc7e8b02c20301420a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 08/66] fix: a rejected psf or gmix leaves the observation as
 it was

The old psf or gmix was deleted before the new one was checked, and a
KObservation kept a psf of the wrong shape or scale.
---
 ngmix/observation.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 653d4bf..9f191e9 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -553,13 +553,12 @@ class Observation(MetadataMixin):
         """
         Set a psf Observation
         """
-        if self.has_psf():
-            del self._psf
-
         if psf is not None:
             mess = "psf must be of Observation, got %s" % type(psf)
             assert isinstance(psf, Observation), mess
             self._psf = psf
+        elif self.has_psf():
+            del self._psf
 
     def get_psf(self):
         """
@@ -602,13 +601,12 @@ class Observation(MetadataMixin):
             The GMix to use to set the internal GMix.
         """
 
-        if self.has_gmix():
-            del self._gmix
-
         if gmix is not None:
             mess = "gmix must be of type GMix, got %s" % type(gmix)
             assert isinstance(gmix, GMix), mess
             self._gmix = gmix.copy()
+        elif self.has_gmix():
+            del self._gmix
 
     def get_gmix(self):
         """
@@ -1236,21 +1234,20 @@ class KObservation(MetadataMixin):
             The PSF as a KObservation. If not None, the shape of the psf image
             should match the observation image.
         """
-        if self.has_psf():
-            del self._psf
-
         if psf is None:
+            if self.has_psf():
+                del self._psf
             return
 
         assert isinstance(psf, KObservation)
 
-        self._psf = psf
-
         if psf.kimage.array.shape != self.kimage.array.shape:
             raise ValueError("psf kimage must have "
                              "same shape as kimage")
         assert np.allclose(psf.kimage.scale, self.kimage.scale)
 
+        self._psf = psf
+
     def _set_jacobian(self):
         """
         center is always at the canonical center.
-- 
2.43.0


From 2fece3386f3d21339637cdb5e55fb7e9d6df9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 09/66] fix: a rejected update leaves the Shape as it was

---
 ngmix/shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngmix/shape.py b/ngmix/shape.py
index f05c125..c33fa16 100644
--- a/ngmix/shape.py
+++ b/ngmix/shape.py
@@ -74,12 +74,12 @@ class Shape(object):
         g1,g2: scalar
             "reduced shear" shapes
         """
-        self.g1 = g1
-        self.g2 = g2
-
         g = numpy.sqrt(g1 * g1 + g2 * g2)
         if g >= 1.0:
             raise GMixRangeError("g out of range: %.16g" % g)
+
+        self.g1 = g1
+        self.g2 = g2
         self.g = g
 
     def get_sheared(self, s1, s2=None):
-- 
2.43.0


From 1a6116d823589fa39d607b5522116d95555dee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 10/66] fix: a rejected set_cen leaves the Jacobian as it was

---
 ngmix/jacobian/jacobian.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngmix/jacobian/jacobian.py b/ngmix/jacobian/jacobian.py
index 044525a..0b05371 100644
--- a/ngmix/jacobian/jacobian.py
+++ b/ngmix/jacobian/jacobian.py
@@ -211,14 +211,15 @@ class Jacobian(object):
         """
 
         if 'row' in kw:
-            self._data['row0'] = kw['row']
-            self._data['col0'] = kw['col']
+            row, col = kw['row'], kw['col']
         elif 'x' in kw:
-            self._data['row0'] = kw['y']
-            self._data['col0'] = kw['x']
+            row, col = kw['y'], kw['x']
         else:
             raise ValueError("expected row=,col= or x=,y=")
 
+        self._data['row0'] = row
+        self._data['col0'] = col
+
     def copy(self):
         """
         get a new Jacobian with the same values as self
-- 
2.43.0


From bf353406211816cb255fb3ed482e0a7d54bd8563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 11/66] fix: number of prior slots in the residuals of simple
 models

---
 ngmix/fitting/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index d6642b2..80aec10 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -832,8 +832,8 @@ def get_lm_n_prior_pars(model, nband):
         # center1 + center2 + shape + T + fracdev + fluxes
         npp = 1 + 1 + 1 + 1 + 1 + nband
     elif model in ['exp', 'dev', 'gauss', 'turb']:
-        # simple models
-        npp = 1 + 1 + 1 + 1 + 1 + nband
+        # simple models: center1 + center2 + shape + T + fluxes
+        npp = 1 + 1 + 1 + 1 + nband
     else:
         raise ValueError('bad model: %s' % model)
 
-- 
2.43.0


From 9430cf7c94b12786f7e3441b8bbf9777e588b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 12/66] fix: spergel and moffat fit models reject sizes that
 are not positive

---
 ngmix/fitting/galsim_results.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index c58d03d..244205a 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -395,6 +395,10 @@ class GalsimSpergelFitModel(GalsimFitModel):
         nu = pars[5]
         flux = pars[6]
 
+        # galsim.Spergel accepts negative values
+        if r50 < 0.0001:
+            raise GMixRangeError("low r50: %g" % r50)
+
         # generic RuntimeError thrown
         try:
             gal = galsim.Spergel(nu, half_light_radius=r50, flux=flux,)
@@ -458,6 +462,10 @@ class GalsimMoffatFitModel(GalsimFitModel):
         beta = pars[5]
         flux = pars[6]
 
+        # galsim.Moffat accepts negative values
+        if r50 < 0.0001:
+            raise GMixRangeError("low r50: %g" % r50)
+
         # generic RuntimeError thrown
         try:
             gal = galsim.Moffat(beta, half_light_radius=r50, flux=flux,)
-- 
2.43.0


From 170beb2226689d93ca70c43d70c7704dfb552979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 13/66] fix: error of a ratio with zero numerator

---
 ngmix/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngmix/util.py b/ngmix/util.py
index 3bfb67d..a69471a 100644
--- a/ngmix/util.py
+++ b/ngmix/util.py
@@ -62,9 +62,10 @@ def get_ratio_var(a, b, var_a, var_b, cov_ab):
     if np.any(b == 0):
         raise ValueError("zero in denominator")
 
-    rsq = (a/b)**2
+    # this form is also valid for a == 0
+    ratio = a/b
 
-    var = rsq * (var_a/a**2 + var_b/b**2 - 2*cov_ab/(a*b))
+    var = (var_a + ratio**2 * var_b - 2*ratio*cov_ab)/b**2
     return var
 
 
-- 
2.43.0


From ccd525ff8a77267beace8ca6f1d32e717ebbb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 14/66] fix: GaussMom results are in flux units also when
 flagged and for MF and M00

---
 ngmix/gaussmom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngmix/gaussmom.py b/ngmix/gaussmom.py
index a8f4b49..eb0949e 100644
--- a/ngmix/gaussmom.py
+++ b/ngmix/gaussmom.py
@@ -55,9 +55,6 @@ class GaussMom(object):
             obs=obs, with_higher_order=self.with_higher_order,
         )
 
-        if res['flags'] != 0:
-            return res
-
         # need to take out the pixel area factor since new ngmix is in flux
         # units
         area = obs.jacobian.area
@@ -70,6 +67,9 @@ class GaussMom(object):
         res["sums_norm"] *= fac
         res["wsum"] *= fac
         res["sums_err"] *= fac
+        for name in ["MF", "M00"]:
+            res[name] *= fac
+            res[f"{name}_err"] *= fac
         return res
 
     def _set_mompars(self):
-- 
2.43.0


From 7120364a1387b6f1b282de00c270e1f76f95d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 15/66] fix: higher order moments in failed and in regularized
 results

---
 ngmix/moments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngmix/moments.py b/ngmix/moments.py
index c1e028f..666a961 100644
--- a/ngmix/moments.py
+++ b/ngmix/moments.py
@@ -454,7 +454,7 @@ def make_mom_result(sums, sums_cov, sums_norm=None):
     res["e"] = np.array([np.nan, np.nan])
     res["e_err"] = np.array([np.nan, np.nan])
     res["e_cov"] = np.diag([np.nan, np.nan])
-    res["sums_err"] = np.array([np.nan, np.nan, np.nan, np.nan, np.nan, np.nan])
+    res["sums_err"] = np.full(len(sums), np.nan)
 
     # handle flux-only
     if sums_cov[mf_ind, mf_ind] > 0:
@@ -602,14 +602,15 @@ def regularize_mom_shapes(res, fwhm_reg):
         The regularized moments result. The size and flux are unchanged.
     """
     if fwhm_reg > 0:
-        raw_mom = res["sums"]
+        # copy so the input result is not modified
+        raw_mom = res["sums"].copy()
         raw_mom_cov = res["sums_cov"]
 
         T_reg = fwhm_to_T(fwhm_reg)
 
         # the moments are not normalized and are sums, so convert T_reg to a sum using
         # the flux sum first via T_reg -> T_reg * raw_mom[5]
-        amat = np.eye(6)
+        amat = np.eye(len(raw_mom))
         amat[4, 5] = T_reg
 
         # the pre-PSF fitters do not fill out the centroid moments so hack around that
-- 
2.43.0


From 0c90b1e583c049ad8ff3674f30ba5242daab47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 16/66] fix: metacal psf can be requested again after drawing
 it failed

---
 ngmix/metacal/metacal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index dbf3a3d..d998e7b 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -305,7 +305,9 @@ class MetacalDilatePSF(object):
         return psf_grown
 
     def _do_dilate(self, psf, shear, doshear=False):
-        key = self._get_psf_key(shear, doshear)
+        # must differ from the key for the drawn psf, which is not yet stored
+        # if drawing it fails
+        key = 'dilated-%s' % self._get_psf_key(shear, doshear)
         if key not in self._psf_cache:
             self._psf_cache[key] = _do_dilate(psf, shear)
 
-- 
2.43.0


From e149d28e95c9bad012834830f5c4d449bcfdf596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 17/66] fix: metacal with a fitted psf does not modify the
 input psf observation

---
 ngmix/metacal/metacal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index d998e7b..a412e9c 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -686,7 +686,11 @@ class MetacalFitGaussPSF(MetacalGaussPSF):
         # try adaptive moments first
         fitter = AdmomFitter(rng=self.rng)
 
-        res = run_psf_fitter(obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry)
+        # do not set the result, this is the psf of the input observation
+        res = run_psf_fitter(
+            obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry,
+            set_result=False,
+        )
 
         if res['flags'] == 0:
             e1, e2 = res['e']
-- 
2.43.0


From 3c86e5ce921fd4861dd6145f19206e0702d378a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 18/66] fix: metacal noshear and 1p observations do not share
 the psf image

---
 ngmix/metacal/metacal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index a412e9c..4a3e6bb 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -457,7 +457,8 @@ class MetacalDilatePSF(object):
     def _make_psf_obs(self, psf_im):
 
         new_psf_obs = self.obs.psf.copy()
-        new_psf_obs.image = psf_im.array
+        # copy, the same image is used for the noshear and 1p observations
+        new_psf_obs.image = psf_im.array.copy()
         return new_psf_obs
 
     def _make_obs(self, im, psf_im):
-- 
2.43.0


From 1935b026540cb0cccb71686615918e394958b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 19/66] fix: errors are set in the result when the fit function
 is not finite

---
 ngmix/fitting/leastsqbound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index cfee383..5f376df 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -131,6 +131,7 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
             pars, pcov, perr = _get_def_stuff(npars)
 
             res["pars"] = pars
+            res["pars_err"] = perr
             res["pars_cov0"] = pcov
             res["pars_cov"] = pcov
             res["nfev"] = -1
@@ -144,6 +145,7 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
         pars, pcov, perr = _get_def_stuff(npars)
 
         res["pars"] = pars
+        res["pars_err"] = perr
         res["pars_cov0"] = pcov
         res["pars_cov"] = pcov
         res["nfev"] = -1
-- 
2.43.0


From 7cfc1f625e2c0780dd866c4832d2ce74bc67de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 20/66] fix: flag fits with fewer data than parameters

---
 ngmix/fitting/leastsqbound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index 5f376df..ecd70b0 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -98,7 +98,7 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
             else:
                 dof = fdiff.size - n_prior_pars - npars
 
-            if dof == 0:
+            if dof <= 0:
                 junk, pcov, perr = _get_def_stuff(npars)
                 flags |= ZERO_DOF
             else:
-- 
2.43.0


From 0d22911cb657b71ee2aac8ebff8db0942d8cb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 21/66] fix: covariance of bounded fits for scipy with zero
 based permutations

---
 ngmix/fitting/leastsqbound.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index ecd70b0..f79b14c 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -534,17 +534,18 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     x = i2e(retval[0])  # internal params to external params
 
     if full_output:
+        # the permutation starts at zero or at one depending on the scipy
+        # version
+        perm = retval[1]['ipvt'] - min(retval[1]['ipvt'])
         # convert fjac from internal params to external
         grad = _internal2external_grad(retval[0], bounds)
-        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad,
-                             retval[1]['ipvt'] - 1)).T
+        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad, perm)).T
         cov_x = None
         if info in [1, 2, 3, 4]:
             from numpy.linalg import inv
             from numpy.linalg import LinAlgError
-            perm = take(eye(n), retval[1]['ipvt'] - 1, 0)
             r = triu(transpose(retval[1]['fjac'])[:n, :])
-            R = dot(r, perm)
+            R = dot(r, take(eye(n), perm, 0))
             try:
                 cov_x = inv(dot(transpose(R), R))
             except (LinAlgError, ValueError):
-- 
2.43.0


From 177afd6e6389af8f8bfa58cc98a030bce126d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 22/66] fix: rounding does not move parameters outside their
 bounds

---
 ngmix/fitting/leastsqbound.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index f79b14c..c6de3a2 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -226,11 +226,13 @@ def _internal2external_lambda(bound):
     if lower is None and upper is None:  # no constraints
         return lambda x: x
     elif upper is None:     # only lower bound
-        return lambda x: lower - 1. + sqrt(x * x + 1.)
+        return lambda x: lower + (sqrt(x * x + 1.) - 1.)
     elif lower is None:     # only upper bound
-        return lambda x: upper + 1. - sqrt(x * x + 1.)
+        return lambda x: upper - (sqrt(x * x + 1.) - 1.)
     else:
-        return lambda x: lower + ((upper - lower) / 2.) * (sin(x) + 1.)
+        return lambda x: min(
+            lower + ((upper - lower) / 2.) * (sin(x) + 1.), upper
+        )
 
 
 def _external2internal_func(bounds):
-- 
2.43.0


From a90fe4f7f209b03411c46d0fe73881adaf50c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 23/66] fix: psf flux guessers do not reuse fluxes of another
 or changed observation

---
 ngmix/guessers.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 90d1d98..4df3c67 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -93,16 +93,12 @@ class TPSFFluxGuesser(object):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
 
     def _get_psf_fluxes(self, obs):
-        oid = id(obs)
-        if oid != self._id_last:
-            self._id_last = oid
-            fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
-            self._psf_fluxes = fdict['flux']
-        return self._psf_fluxes
+        # not cached: neither the id nor the identity of the observation tells
+        # whether the data are still the same
+        fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
+        return fdict['flux']
 
     def __call__(self, obs, nrand=1):
         """
@@ -162,8 +158,6 @@ class TPSFFluxAndPriorGuesser(TPSFFluxGuesser):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
 
     def __call__(self, obs, nrand=1):
         """
@@ -206,8 +200,6 @@ def _get_psf_fluxes(rng, obs):
     """
     Get psf fluxes for the input observations
 
-    The result is cached with cache size 64
-
     Parameters
     ----------
     rng: numpy.random.RandomState
@@ -337,8 +329,6 @@ class BDFPSFFluxGuesser(TPSFFluxGuesser):
     def __init__(self, T, prior):
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
         self.rng = self.prior.cen_prior.rng
 
     def __call__(self, obs, nrand=1):
-- 
2.43.0


From c02a468cf89daac9e9d3550ab42f50b038410e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 24/66] fix: adaptive moments do not modify the guess of the
 caller

---
 ngmix/admom/admom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/admom/admom.py b/ngmix/admom/admom.py
index 771d672..c412f7b 100644
--- a/ngmix/admom/admom.py
+++ b/ngmix/admom/admom.py
@@ -361,7 +361,8 @@ class AdmomFitter(object):
 
     def _get_guess(self, obs, guess):
         if isinstance(guess, GMix):
-            guess_gmix = guess
+            # the mixture is updated in place during the fit
+            guess_gmix = guess.copy()
         else:
             Tguess = guess  # noqa
             guess_gmix = self._generate_guess(obs=obs, Tguess=Tguess)
-- 
2.43.0


From aa17f687dfc4791cde640e9e06eaf4b0930964cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 25/66] fix: make_kobs does not add to the meta data of the
 input

---
 ngmix/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 9f191e9..bd63740 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1556,7 +1556,8 @@ def make_kobs(mb_obs, interp=DEFAULT_XINTERP):
             else:
                 psf_kobs = None
 
-            meta = iidict['meta']
+            meta = {}
+            meta.update(iidict['meta'])
             meta['realspace_gsimage'] = iidict['realspace_gsimage']
             meta['scale'] = iidict['scale']
             kobs = KObservation(
-- 
2.43.0


From bf4c1e47fda6d95f0744c2fc248a3b94f280f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 26/66] fix: galsim fits do not add to the meta data of k space
 observations

---
 ngmix/fitting/galsim_results.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index 244205a..e236b19 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -7,7 +7,10 @@ from .results import FitModel, PSFFluxFitModel
 from ..gexceptions import GMixRangeError
 from ..defaults import copy_if_needed, LOWVAL
 from .. import observation
-from ..observation import Observation, ObsList, MultiBandObsList
+from ..observation import (
+    Observation, ObsList, MultiBandObsList,
+    KObservation, KObsList, KMultiBandObsList,
+)
 
 
 class GalsimFitModel(FitModel):
@@ -213,7 +216,21 @@ class GalsimFitModel(FitModel):
         if isinstance(obs_in, (Observation, ObsList, MultiBandObsList)):
             kobs = self._convert2kobs(obs_in)
         else:
-            kobs = observation.get_kmb_obs(obs_in)
+            # the model images are kept in the meta data, so do not use the
+            # meta data of the input
+            kobs = KMultiBandObsList()
+            for obslist in observation.get_kmb_obs(obs_in):
+                kobs_list = KObsList()
+                for obs in obslist:
+                    meta = {}
+                    meta.update(obs.meta)
+                    kobs_list.append(KObservation(
+                        obs.kimage,
+                        weight=obs.weight,
+                        psf=obs.psf if obs.has_psf() else None,
+                        meta=meta,
+                    ))
+                kobs.append(kobs_list)
 
         self.mb_kobs = kobs
         self.nband = len(kobs)
-- 
2.43.0


From e4963fcceeee2e0e6b51506f6e120f823056842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 27/66] fix: adaptive moments keep the cause of a failure in
 the last iteration

A run that failed, e.g. because the flux was not positive, in the last
allowed iteration was reported as having reached the maximum number of
iterations.
---
 ngmix/admom/admom_nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/admom/admom_nb.py b/ngmix/admom/admom_nb.py
index 79b4dae..ee2c8f0 100644
--- a/ngmix/admom/admom_nb.py
+++ b/ngmix/admom/admom_nb.py
@@ -104,7 +104,8 @@ def admom(confarray, wt, pixels, resarray):
 
     res['numiter'] = i+1
 
-    if res['numiter'] == conf['maxiter']:
+    # keep the flag of a failure in the last iteration
+    if res['numiter'] == conf['maxiter'] and res['flags'] == 0:
         res['flags'] = ngmix.flags.MAXITER
 
 
-- 
2.43.0


From 7f9cd3175befb896c2a78be02cb78b73285a726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 28/66] fix: psf mixture guesses are valid at any pixel scale

the off-diagonal moment was drawn from an absolute range, which gives a
non-positive determinant when the pixels are small
---
 ngmix/guessers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 4df3c67..60343f2 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -918,21 +918,21 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em3_fguess[0] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em3_fguess[1] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em3_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -948,28 +948,28 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em4_fguess[0] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em4_fguess[1] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em4_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em4_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -985,35 +985,35 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[0] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[1] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
-- 
2.43.0


From 41f599b6c618754751b6e7b445c48e2633a49089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 29/66] fix: the 4 and 5 gaussian psf guesses use all entries
 of their tables

the entry for the third gaussian was used for the later ones as well, so the
guess did not have the requested flux and size
---
 ngmix/guessers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 60343f2..9d137db 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -965,12 +965,12 @@ class GMixPSFGuesser(object):
             _em4_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
-            flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            flux * _em4_pguess[3] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
-            _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            _em4_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
-            _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em4_fguess[3] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em4_fguess[3] * sigma2 * rng.uniform(low=-0.01, high=0.01),
+            _em4_fguess[3] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
         return GMix(pars=pars)
@@ -1002,19 +1002,19 @@ class GMixPSFGuesser(object):
             _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
-            flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            flux * _em5_pguess[3] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
-            _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
-            _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em5_fguess[3] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em5_fguess[3] * sigma2 * rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[3] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
-            flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            flux * _em5_pguess[4] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
-            _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
-            _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em5_fguess[4] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em5_fguess[4] * sigma2 * rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[4] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
         return GMix(pars=pars)
-- 
2.43.0


From 90b3b07f225434816db895d3f83d78dec42aa76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 30/66] fix: BDGuesser sets fracdev rather than the size ratio

---
 ngmix/guessers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 9d137db..fb66adb 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -462,7 +462,7 @@ class BDGuesser(object):
         guess[:, 4] = self.T * (1.0 + r)
 
         # fracdev prior
-        guess[:, 5] = rng.uniform(low=0.4, high=0.6, size=nrand)
+        guess[:, 6] = rng.uniform(low=0.4, high=0.6, size=nrand)
 
         for band in range(nband):
             r = rng.uniform(low=-0.1, high=0.1, size=nrand)
-- 
2.43.0


From 3b3134a501181f586e7ad1166309ec6ba11f0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 31/66] fix: FlatPrior.get_lnprob_array returns one value per
 input

it returned the scalar 0.0
---
 ngmix/priors/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 54001a8..1e25393 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -137,7 +137,7 @@ class FlatPrior(PriorBase):
                 "[%s,%s]" % (self.minval, self.maxval)
             )
 
-        return retval
+        return vals*0 + retval
 
     def get_fdiff(self, val):
         """
-- 
2.43.0


From 5fea132b0463220dbda05743d2f5fe3106388f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 32/66] fix: CenPrior.get_prob_array works for arrays

it used math.exp, which only takes scalars
---
 ngmix/priors/multivariate.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngmix/priors/multivariate.py b/ngmix/priors/multivariate.py
index 755eea7..7edb21c 100644
--- a/ngmix/priors/multivariate.py
+++ b/ngmix/priors/multivariate.py
@@ -2,6 +2,8 @@
 Convention is that all priors should have peak ln(prob)==0. This
 helps use in priors for LM fitting
 """
+import numpy as np
+
 from .priors import PriorBase
 
 
@@ -81,9 +83,14 @@ class CenPrior(PriorBase):
         lnp = -0.5 * d1 * d1 * self.s2inv1 - 0.5 * d2 * d2 * self.s2inv2
         return exp(lnp)
 
-    get_prob_array = get_prob_scalar
     get_lnprob_array = get_lnprob_scalar
 
+    def get_prob_array(self, x1, x2):
+        """
+        probability at the specified points
+        """
+        return np.exp(self.get_lnprob_array(x1, x2))
+
     def sample(self, nrand=None):
         """
         Get a single sample or arrays.
-- 
2.43.0


From 01a0f41f685d10038e3ceb9e0759d54d9433e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 33/66] fix: TruncatedGaussian includes the ends of its range
 for arrays as well

get_lnprob_scalar and get_fdiff accept them, get_lnprob_array returned -inf
---
 ngmix/priors/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 1e25393..db9457e 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -1105,7 +1105,7 @@ class TruncatedGaussian(PriorBase):
         """
         lnp = np.zeros(val.size)
         lnp -= np.inf
-        (w,) = np.where((val > self.minval) & (val < self.maxval))
+        (w,) = np.where((val >= self.minval) & (val <= self.maxval))
         if w.size > 0:
             diff = val[w] - self.mean
             lnp[w] = -0.5 * diff * diff * self.ivar
-- 
2.43.0


From 301de8d6df8390507127dd78096ecbc5b088b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 34/66] fix: the BD and BDF priors can be used with a tuple of
 flux priors

set_bounds added it to a list and raised TypeError
---
 ngmix/joint_prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 69c478a..0455b05 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -302,6 +302,7 @@ class PriorBDSep(PriorSimpleSep):
 
         if isinstance(F_prior, (list, tuple)):
             self.nband = len(F_prior)
+            F_prior = list(F_prior)
         else:
             self.nband = 1
             F_prior = [F_prior]
@@ -508,6 +509,7 @@ class PriorBDFSep(PriorSimpleSep):
 
         if isinstance(F_prior, (list, tuple)):
             self.nband = len(F_prior)
+            F_prior = list(F_prior)
         else:
             self.nband = 1
             F_prior = [F_prior]
-- 
2.43.0


From 1845b95f377ca7066dd9021e07ea66639a77c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 35/66] fix: PriorCoellipSame has one bound per parameter

the bounds were lists, and their number did not match that of the parameters
---
 ngmix/joint_prior.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 0455b05..4146883 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -902,16 +902,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         some_have_bounds = False
 
-        allp = [self.T_prior]*ngauss + self.F_priors
+        allp = [self.T_prior]*ngauss + self.F_priors*ngauss
 
         for i, p in enumerate(allp):
             if p.has_bounds():
                 some_have_bounds = True
-                pbounds = [(p.bounds[0], p.bounds[1])]
+                bounds.append((p.bounds[0], p.bounds[1]))
             else:
-                pbounds = [(None, None)]
-
-            bounds += [pbounds] * self.ngauss
+                bounds.append((None, None))
 
         if not some_have_bounds:
             bounds = None
-- 
2.43.0


From 6de33a52a4bc721503fa266e4ce711939b5e43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 36/66] fix: PriorCoellipSame samples one T per gaussian

the first T was the sum of two samples
---
 ngmix/joint_prior.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 4146883..52173ec 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -1011,16 +1011,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         cen1, cen2 = self.cen_prior.sample(nrand)
         g1, g2 = self.g_prior.sample2d(nrand)
-        T = self.T_prior.sample(nrand)
 
         samples[:, 0] = cen1
         samples[:, 1] = cen2
         samples[:, 2] = g1
         samples[:, 3] = g2
-        samples[:, 4] = T
 
         for i in range(ngauss):
-            samples[:, 4+i] += self.T_prior.sample(nrand)
+            samples[:, 4+i] = self.T_prior.sample(nrand)
 
         F_prior = self.F_priors[0]
         for i in range(ngauss):
-- 
2.43.0


From f1b2a6078e8866c55b3446bcbbc5c73a8355d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 37/66] fix: PriorCoellipSame.get_lnprob_array uses all
 parameters

the inherited method took the second T for the flux and ignored the rest
---
 ngmix/joint_prior.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 52173ec..861ca3e 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -943,6 +943,35 @@ class PriorCoellipSame(PriorSimpleSep):
 
         return lnp
 
+    def get_lnprob_array(self, pars):
+        """
+        log probability for array input [N,ndims]
+
+        Parameters
+        ----------
+        pars: array
+            Array of parameters values
+        """
+
+        if pars.shape[1] != self.npars:
+            raise ValueError(
+                'pars size %d expected %d' % (pars.shape[1], self.npars)
+            )
+
+        ngauss = self.ngauss
+
+        lnp = self.cen_prior.get_lnprob_array(pars[:, 0], pars[:, 1])
+        lnp += self.g_prior.get_lnprob_array2d(pars[:, 2], pars[:, 3])
+
+        for i in range(ngauss):
+            lnp += self.T_prior.get_lnprob_array(pars[:, 4 + i])
+
+        F_prior = self.F_priors[0]
+        for i in range(ngauss):
+            lnp += F_prior.get_lnprob_array(pars[:, 4 + ngauss + i])
+
+        return lnp
+
     def fill_fdiff(self, pars, fdiff):
         """
         set sqrt(-2ln(p)) ~ (model-data)/err
-- 
2.43.0


From dfedfc8521367ebcbe2ae5f2d2d2676afb514b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 38/66] revert the change of the 4 and 5 gaussian psf guesses

with all entries of the tables the EM fit of an existing test does not
converge within the allowed iterations; the guess was fine as a guess
---
 ngmix/guessers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index fb66adb..de5ef7b 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -965,12 +965,12 @@ class GMixPSFGuesser(object):
             _em4_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
-            flux * _em4_pguess[3] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
-            _em4_fguess[3] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            _em4_fguess[3] * sigma2 * rng.uniform(low=-0.01, high=0.01),
-            _em4_fguess[3] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em4_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
+            _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
         return GMix(pars=pars)
@@ -1002,19 +1002,19 @@ class GMixPSFGuesser(object):
             _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
-            flux * _em5_pguess[3] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
-            _em5_fguess[3] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            _em5_fguess[3] * sigma2 * rng.uniform(low=-0.01, high=0.01),
-            _em5_fguess[3] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
-            flux * _em5_pguess[4] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
-            _em5_fguess[4] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            _em5_fguess[4] * sigma2 * rng.uniform(low=-0.01, high=0.01),
-            _em5_fguess[4] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
+            _em5_fguess[2] * sigma2 * rng.uniform(low=-0.01, high=0.01),
+            _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
         return GMix(pars=pars)
-- 
2.43.0


From 12a1e1d57ef19ad68a8c575257eabbeccb2498a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 39/66] fix: GPriorBA samples from the new distribution after
 set_pars or set_sigma

the maximum of the distribution found for the first sample was kept, so
samples drawn after making the distribution wider were biased
---
 ngmix/priors/shape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index 37d742d..334d895 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -517,6 +517,10 @@ class GPriorBA(GPriorBase):
         self.sig2inv = 1.0 / self.sig2
         self.sig4inv = 1.0 / self.sig4
 
+        # the maximum used for sampling is that of the old parameters
+        if hasattr(self, "maxval1d"):
+            del self.maxval1d
+
     def get_fdiff(self, g1, g2):
         """
         Compute sqrt(-2ln(p)) ~ (data - mode)/err for using with LM fitters.
-- 
2.43.0


From 4a168473564b628a31ecae292de291e411f421ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 40/66] fix: GPriorBA can be sampled for sigma of one and
 larger

the search for the maximum started at |g| > 1, where the probability is
zero, and all samples were accepted
---
 ngmix/priors/shape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index 334d895..f5489d5 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -487,7 +487,8 @@ class GPriorBA(GPriorBase):
             The generated |g| values.
         """
         if maxguess is None:
-            maxguess = self.sigma + 0.0001 * srandu(rng=self.rng)
+            # the maximum is at most at 0.45, for large sigma
+            maxguess = min(self.sigma, 0.5) + 0.0001 * srandu(rng=self.rng)
 
         return super().sample1d(nrand, maxguess=maxguess)
 
-- 
2.43.0


From 7cd86698a7d966a9bbe5bfd1b7db6c498ca8036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 41/66] fix: GPriorBA knows its maximum for any sigma

the search failed with RuntimeError for some random states when sigma is
below 0.006, and for sigma of one and larger (it started at |g| > 1) it
returned zero, so that all samples were accepted
---
 ngmix/priors/shape.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index f5489d5..ec95ef1 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -487,11 +487,27 @@ class GPriorBA(GPriorBase):
             The generated |g| values.
         """
         if maxguess is None:
-            # the maximum is at most at 0.45, for large sigma
-            maxguess = min(self.sigma, 0.5) + 0.0001 * srandu(rng=self.rng)
+            maxguess = self.sigma + 0.0001 * srandu(rng=self.rng)
 
         return super().sample1d(nrand, maxguess=maxguess)
 
+    def set_maxval1d(self, maxguess=None):
+        """
+        Set the max value of the 1d distribution.  The location of the maximum
+        is known, no search is needed
+
+        parameters
+        ----------
+        maxguess: float
+            Ignored
+        """
+        # zero of the derivative of log(g) + 2*log(1-g^2) - 0.5*g^2/sigma^2
+        b = 1.0 + 5.0 * self.sig2
+        gsq = 2.0 * self.sig2 / (b + sqrt(b ** 2 - 4.0 * self.sig2))
+
+        self.maxval1d_loc = sqrt(gsq)
+        self.maxval1d = self.get_prob_scalar1d(self.maxval1d_loc)
+
     def set_pars(self, pars):
         """
         Set parameters of the prior.
-- 
2.43.0


From 0fdddc771c3e5b79ae8c8fcd3ad35afb9d80fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 42/66] fix: pixels with nan weight are ignored, not written
 past the end of the pixel list

---
 ngmix/pixels/pixels_nb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/pixels/pixels_nb.py b/ngmix/pixels/pixels_nb.py
index ea7779f..46b3833 100644
--- a/ngmix/pixels/pixels_nb.py
+++ b/ngmix/pixels/pixels_nb.py
@@ -34,7 +34,7 @@ def fill_pixels(pixels, image, weight, jacob, ignore_zero_weight=True):
         for col in range(ncol):
 
             ivar = weight[row, col]
-            if ignore_zero_weight and ivar <= 0.0:
+            if ignore_zero_weight and not ivar > 0.0:
                 continue
 
             pixel = pixels[ipixel]
@@ -47,7 +47,7 @@ def fill_pixels(pixels, image, weight, jacob, ignore_zero_weight=True):
 
             pixel['val'] = image[row, col]
 
-            if ivar < 0.0:
+            if not ivar > 0.0:
                 ivar = 0.0
 
             pixel['ierr'] = numpy.sqrt(ivar)
-- 
2.43.0


From dcfa2d1144954613be95d66682e7f2aac4ec18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 43/66] fix: the text of flags names the highest bit of the
 32-bit word

---
 ngmix/flags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/flags.py b/ngmix/flags.py
index 776e98f..43c11e9 100644
--- a/ngmix/flags.py
+++ b/ngmix/flags.py
@@ -87,7 +87,7 @@ def get_flags_str(val, name_map=None):
     val = np.array(val, dtype=np.uint32)
 
     nstrs = []
-    for pow in range(31):
+    for pow in range(32):
         fval = 2**pow
         if ((val & fval) != 0):
             if fval in name_map:
-- 
2.43.0


From 8dc8b8ab3f63f9cc19b7961ac073b092d6c50e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 44/66] fix: simulate_obs works for observations without
 positive weight that were allowed to be made

An observation with no positive weights can be made with
store_pixels=False or ignore_zero_weight=False, but simulating from
it raised GMixFatalError because these settings were not passed on.
---
 ngmix/simobs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngmix/simobs.py b/ngmix/simobs.py
index 1c59406..4e490f8 100644
--- a/ngmix/simobs.py
+++ b/ngmix/simobs.py
@@ -197,7 +197,9 @@ def _simulate_obs(
         weight *= 1.0 / noise_factor ** 2
 
     new_obs = Observation(
-        sim_image, weight=weight, jacobian=obs.jacobian, psf=psf
+        sim_image, weight=weight, jacobian=obs.jacobian, psf=psf,
+        store_pixels=obs.store_pixels,
+        ignore_zero_weight=obs.ignore_zero_weight,
     )
 
     new_obs.noise_image = noise_image
-- 
2.43.0


From 58dfa49a9944cd74b91a1de428c6407be27e2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 45/66] fix: gaussian aperture fluxes of objects with
 non-finite parameters are flagged

A nan shape or size gave the full flux, and a nan flux gave nan, both
with flags zero.
---
 ngmix/gaussap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 546f05e..823be7f 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -93,7 +93,13 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
 
         tpars = _get_band_pars(pars, model, i, band)
 
+        if not np.all(np.isfinite(tpars)):
+            raise GMixRangeError('parameters are not finite')
+
         if model == 'cm':
+            if not (np.isfinite(fracdev[i]) and np.isfinite(TdByTe[i])):
+                raise GMixRangeError('fracdev or TdByTe is not finite')
+
             gm = GMixCM(
                 fracdev[i],
                 TdByTe[i],
@@ -147,7 +153,8 @@ def _get_band_pars(pars, model, index, band):
     tpars[0:npars-1] = pars[index, 0:npars-1]
     tpars[-1] = pars[index, flux_start+band]
 
-    tpars[4] = tpars[4].clip(min=0.0001)
+    if np.isfinite(tpars[4]):
+        tpars[4] = tpars[4].clip(min=0.0001)
 
     return tpars
 
-- 
2.43.0


From f4cae7382eec177f480cceb911d19f680ad74b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 46/66] fix: gaussian aperture fluxes can be made for a table
 without objects

---
 ngmix/gaussap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 823be7f..4d10054 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -161,9 +161,9 @@ def _get_band_pars(pars, model, index, band):
 
 def _get_nband(pars, model):
     if model == 'bdf':
-        nband = len(pars[0])-7+1
+        nband = pars.shape[1]-7+1
     else:
-        nband = len(pars[0])-6+1
+        nband = pars.shape[1]-6+1
 
     return nband
 
-- 
2.43.0


From cfa797ba5700ba9b994c4215bc04fd11195ca2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 47/66] fix: GMixND samples from the current mixture

The object used for sampling was kept when a new mixture was set or
loaded, so samples came from the old mixture.
---
 ngmix/gmix_ndim/gmix_ndim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index d63fb07..a00f7c6 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -58,6 +58,10 @@ class GMixND(object):
         if len(covars.shape) == 1:
             covars = covars.reshape((covars.size, 1, 1))
 
+        # samples should come from the new mixture
+        if hasattr(self, "_gmm"):
+            del self._gmm
+
         self.weights = weights
         self.means = means
         self.covars = covars
@@ -107,8 +111,8 @@ class GMixND(object):
         if not gmm.converged_:
             print("DID NOT CONVERGE")
 
-        self._gmm = gmm
         self.set_mixture(gmm.weights_, gmm.means_, gmm.covariances_)
+        self._gmm = gmm
 
         if doplot:
             plt = self.plot(data=data, **keys)
-- 
2.43.0


From 0d82bdd3287b8467087d1f57a8f4d19167d0ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 48/66] fix: GMixND log probability far from the mixture is
 finite

Points with log probability below -9.99e9 in all components had
log probability -inf for the mixture.
---
 ngmix/gmix_ndim/gmix_ndim_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim_nb.py b/ngmix/gmix_ndim/gmix_ndim_nb.py
index 0a2bd31..e235343 100644
--- a/ngmix/gmix_ndim/gmix_ndim_nb.py
+++ b/ngmix/gmix_ndim/gmix_ndim_nb.py
@@ -33,7 +33,7 @@ def gmixnd_get_prob(log_pnorms,
 
     n_dim = means.shape[1]
     n_gauss = log_pnorms.size
-    lnpmax = -9.99e9
+    lnpmax = -1.0e300
 
     for i in range(n_gauss):
 
-- 
2.43.0


From 5a6b73aeb4f21504c3af59f8357603b22e66a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 49/66] fix: GMixND does not read past the end of points with
 too few dimensions

---
 ngmix/gmix_ndim/gmix_ndim.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index a00f7c6..a06dd50 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -307,12 +307,23 @@ class GMixND(object):
 
         return retvals
 
+    def _check_dims(self, pars):
+        """
+        the evaluation code does not check bounds
+        """
+        if pars.shape[-1] != self.ndim:
+            raise ValueError(
+                "expected points with %d dimensions, "
+                "got %d" % (self.ndim, pars.shape[-1])
+            )
+
     def get_lnprob_scalar(self, pars_in, component=None):
         """
         (x-xmean) icovar (x-xmean)
         """
         dolog = 1
         pars = numpy.array(pars_in, dtype="f8", ndmin=1, order="C")
+        self._check_dims(pars)
         return self._get_prob(pars, dolog, component=component)
 
     def get_prob_scalar(self, pars_in, component=None):
@@ -321,6 +332,7 @@ class GMixND(object):
         """
         dolog = 0
         pars = numpy.array(pars_in, dtype="f8", ndmin=1, order="C")
+        self._check_dims(pars)
         return self._get_prob(pars, dolog, component=component)
 
     def get_lnprob_array(self, pars, component=None):
@@ -333,6 +345,7 @@ class GMixND(object):
         if len(pars.shape) == 1:
             pars = pars[:, numpy.newaxis]
 
+        self._check_dims(pars)
         return self._get_prob_array(pars, dolog, component=component)
 
     def get_prob_array(self, pars, component=None):
@@ -345,6 +358,7 @@ class GMixND(object):
         if len(pars.shape) == 1:
             pars = pars[:, numpy.newaxis]
 
+        self._check_dims(pars)
         return self._get_prob_array(pars, dolog, component=component)
 
     def sample(self, n=None):
-- 
2.43.0


From d02adedd5c4eaf92205feefd151533799d51bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 50/66] fix: psf flux errors do not count pixels with zero
 weight

For observations with ignore_zero_weight=False the masked pixels were
counted as measurements, which lowered the error, and observations with
store_pixels=False raised AttributeError.
---
 ngmix/fitting/results.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 80aec10..0d6308b 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -750,11 +750,8 @@ class PSFFluxFitModel(dict):
         Make sure the data are consistent.
         """
 
-        totpix = 0
-        for obs in self.obs:
-            totpix += obs.pixels.size
-
-        self.totpix = totpix
+        # the pixel list may hold pixels with zero weight, or not exist
+        self.totpix = self.get_effective_npix()
 
     def get_effective_npix(self):
         """
-- 
2.43.0


From ef20174ff9f24d3fd818f61a63436393f55c6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 51/66] fix: chi squared and error of galsim psf fluxes use the
 fitted model

When the template does not fit on the stamp its sum is not unity, and
the model used for chi squared had a different flux than the best fit.
---
 ngmix/fitting/galsim_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index e236b19..f510d26 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -560,7 +560,7 @@ class GalsimPSFFitModel(PSFFluxFitModel):
 
         if flux is not None:
             model = self.template_list[iobs].copy()
-            model *= flux / model.sum()
+            model *= flux
         else:
             model = self.template_list[iobs]
 
-- 
2.43.0


From dcd0a22ab089e6e34ca94c9d59227bc70db4d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 52/66] fix: k-space observations have the center of the
 jacobian as origin

The galsim fitters measured positions from the center of the stamp, so
epochs with objects at other places of their stamps were not aligned.
---
 ngmix/observation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index bd63740..276e335 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1360,6 +1360,16 @@ class KMultiBandObsList(list, MetadataMixin):
         super(KMultiBandObsList, self).__setitem__(index, kobs_list)
 
 
+def _get_cen_offset(obs):
+    """
+    get the offset in pixels (col, row) of the jacobian center, the origin of
+    the coordinates, from the center of the image
+    """
+    nrow, ncol = obs.image.shape
+    row, col = obs.jacobian.get_cen()
+    return col - (ncol - 1)/2, row - (nrow - 1)/2
+
+
 def make_iilist(obs, interp=DEFAULT_XINTERP):
     """
     make a multi-band interpolated image list, as well as the maximum of
@@ -1413,6 +1423,7 @@ def make_iilist(obs, interp=DEFAULT_XINTERP):
             ii = galsim.InterpolatedImage(
                 gsimage,
                 x_interpolant=interp,
+                offset=_get_cen_offset(obs),
             )
             if hasattr(ii, 'SBProfile'):
                 gsvers = 1
@@ -1431,6 +1442,7 @@ def make_iilist(obs, interp=DEFAULT_XINTERP):
                 psf_ii = galsim.InterpolatedImage(
                     psf_gsimage,
                     x_interpolant=interp,
+                    offset=_get_cen_offset(obs.psf),
                 )
                 # make dimensions odd
                 if gsvers == 1:
-- 
2.43.0


From 72bb9b13ee5a3ed9107f6fd5c22695f444ed24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 53/66] fix: the size of the gaussian target psf does not
 depend on the orientation

The wave numbers were off by half a pixel for images of odd size.
---
 ngmix/metacal/metacal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index 4a3e6bb..864700d 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -868,7 +868,9 @@ def _get_gauss_target_psf(psf, flux):
     karr_r = kim.real.array
     # Find the smallest r where the kval < small_kval
     nk = karr_r.shape[0]
-    kx, ky = np.meshgrid(np.arange(-nk/2, nk/2), np.arange(-nk/2, nk/2))
+    # zero is at the center of the image, whose size can be odd
+    k = np.arange(nk) - nk//2
+    kx, ky = np.meshgrid(k, k)
     ksq = (kx**2 + ky**2) * dk**2
     ksq_max = np.min(ksq[karr_r < small_kval * psf.flux])
 
-- 
2.43.0


From 696d37a354d313a12c998bb76c6ad0b4465613d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 54/66] Revert "fix: the size of the gaussian target psf does
 not depend on the orientation"

This reverts commit 72bb9b13ee5a3ed9107f6fd5c22695f444ed24b6.
---
 ngmix/metacal/metacal.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index 864700d..4a3e6bb 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -868,9 +868,7 @@ def _get_gauss_target_psf(psf, flux):
     karr_r = kim.real.array
     # Find the smallest r where the kval < small_kval
     nk = karr_r.shape[0]
-    # zero is at the center of the image, whose size can be odd
-    k = np.arange(nk) - nk//2
-    kx, ky = np.meshgrid(k, k)
+    kx, ky = np.meshgrid(np.arange(-nk/2, nk/2), np.arange(-nk/2, nk/2))
     ksq = (kx**2 + ky**2) * dk**2
     ksq_max = np.min(ksq[karr_r < small_kval * psf.flux])
 
-- 
2.43.0


From fef51174352dfbf352118953c9fdd3c299a0bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 55/66] fix: pickled or copied fit results evaluate the model
 they are asked for

The result held references to the data of its mixtures, which are no longer
those of the mixtures after pickling or deep copying, so calc_fdiff returned
the residuals of an earlier set of parameters.
---
 ngmix/fitting/results.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 0d6308b..a361f48 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -424,17 +424,18 @@ class FitModel(dict):
         """
         lists of references.
         """
-        gmix_data_list = []
+        flat_gmix_list = []
 
         for band in range(self.nband):
 
             gmix_list = self._gmix_all[band]
 
             for gm in gmix_list:
-                gmdata = gm.get_data()
-                gmix_data_list.append(gmdata)
+                # not the data, which would not be that of the mixture
+                # any more after pickling or deep copying the result
+                flat_gmix_list.append(gm)
 
-        self._gmix_data_list = gmix_data_list
+        self._flat_gmix_list = flat_gmix_list
 
     def calc_fdiff(self, pars):
         """
@@ -453,9 +454,9 @@ class FitModel(dict):
 
             start = self._fill_priors(pars=pars, fdiff=fdiff)
 
-            for pixels, gm in zip(self._pixels_list, self._gmix_data_list):
+            for pixels, gm in zip(self._pixels_list, self._flat_gmix_list):
                 fill_fdiff(
-                    gm, pixels, fdiff, start,
+                    gm.get_data(), pixels, fdiff, start,
                 )
 
                 start += pixels.size
-- 
2.43.0


From 6ab079ccf89b91cad7e58e0afbf37f2901cc14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 56/66] fix: leastsqbound answers improper minimizer input with
 its status

With bounds, the uninitialised working arrays were used when the
minimizer refused its input, which raised IndexError.
---
 ngmix/fitting/leastsqbound.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index c6de3a2..6cfc5c0 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -536,13 +536,16 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     x = i2e(retval[0])  # internal params to external params
 
     if full_output:
-        # the permutation starts at zero or at one depending on the scipy
-        # version
-        perm = retval[1]['ipvt'] - min(retval[1]['ipvt'])
-        # convert fjac from internal params to external
-        grad = _internal2external_grad(retval[0], bounds)
-        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad, perm)).T
         cov_x = None
+        if info != 0:
+            # fjac and ipvt are not set for improper input
+
+            # the permutation starts at zero or at one depending on the scipy
+            # version
+            perm = retval[1]['ipvt'] - min(retval[1]['ipvt'])
+            # convert fjac from internal params to external
+            grad = _internal2external_grad(retval[0], bounds)
+            retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad, perm)).T
         if info in [1, 2, 3, 4]:
             from numpy.linalg import inv
             from numpy.linalg import LinAlgError
-- 
2.43.0


From 664e91bd5dd571dad196c8c9a150e8305b6eb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 57/66] fix: the fits of priors accept array-likes, as
 documented

---
 ngmix/priors/priors.py | 3 +++
 ngmix/priors/shape.py  | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index db9457e..40b03e8 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -958,6 +958,9 @@ class LogNormal(PriorBase):
 
         rng = self.rng
 
+        x = np.asarray(x)
+        y = np.asarray(y)
+
         self._fitx = x
         self._fity = y
 
diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index ec95ef1..6c98fd8 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -334,6 +334,9 @@ class GPriorBase(PriorBase):
         """
         from ..fitting.leastsqbound import run_leastsq
 
+        xdata = numpy.asarray(xdata)
+        ydata = numpy.asarray(ydata)
+
         (w,) = where(ydata > 0)
         self.xdata = xdata[w]
         self.ydata = ydata[w]
@@ -341,6 +344,8 @@ class GPriorBase(PriorBase):
 
         if guess is None:
             guess = self._get_guess(self.ydata.sum())
+        else:
+            guess = numpy.array(guess, dtype="f8")
 
         res = run_leastsq(self._calc_fdiff, guess, 0, maxfev=4000)
 
-- 
2.43.0


From f1e5cb08ed6c2a3ca936bfe041f57c3f35697bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 58/66] fix: MetacalFitGaussPSF raises BootPSFFailure for a psf
 fit without a size

It raised LinAlgError, which the callers do not expect.
---
 ngmix/metacal/metacal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index 4a3e6bb..f280dd1 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -732,6 +732,11 @@ class MetacalFitGaussPSF(MetacalGaussPSF):
                     'could not get e1,e2 from psf fit for MetacalFitGaussPSF'
                 )
 
+            if not T > 0:
+                raise BootPSFFailure(
+                    'psf fit for MetacalFitGaussPSF has T %g' % T
+                )
+
         dilation = _get_ellip_dilation(e1, e2, T)
         T_dilated = T*dilation
         sigma = np.sqrt(T_dilated/2.0)
-- 
2.43.0


From a7dcde2a59a9e8e55ac9495acd5df523f8c84c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 59/66] fix: every observation is fit with its own psf mixture,
 or none

Whether there are psfs was decided by the first observation of the first
band for all of them.
---
 ngmix/fitting/results.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index a361f48..6c81fcd 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -265,10 +265,11 @@ class FitModel(dict):
         initialize the list of lists of gaussian mixtures
         """
 
-        if self.obs[0][0].has_psf_gmix():
-            self.dopsf = True
-        else:
-            self.dopsf = False
+        # an observation without a psf mixture is fit without psf, whatever the
+        # others have
+        self.dopsf = any(
+            obs.has_psf_gmix() for obs_list in self.obs for obs in obs_list
+        )
 
         gmix_all0 = MultiBandGMixList()
         gmix_all = MultiBandGMixList()
@@ -282,7 +283,7 @@ class FitModel(dict):
 
             for obs in obs_list:
                 gm0 = self._make_model(band_pars)
-                if self.dopsf:
+                if obs.has_psf_gmix():
                     psf_gmix = obs.psf.gmix
                     gm = gm0.convolve(psf_gmix)
                 else:
@@ -322,11 +323,15 @@ class FitModel(dict):
 
             for i, obs in enumerate(obs_list):
 
-                psf_gmix = obs.psf.gmix
-
                 gm0 = gmix_list0[i]
                 gm = gmix_list[i]
 
+                if not obs.has_psf_gmix():
+                    gm._fill(band_pars)
+                    continue
+
+                psf_gmix = obs.psf.gmix
+
                 gm0._fill(band_pars)
                 self._convolve_gmix(gm, gm0, psf_gmix)
 
-- 
2.43.0


From 4dd215cc35233f3f0f8c8be619eee530ce89a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 60/66] fix: mixtures without gaussians, and negative start
 values of fill_fdiff, are refused

Compiled code does not check bounds: these wrote or read outside of the
arrays.
---
 ngmix/gmix/gmix.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 2bacb2f..5ae7040 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -104,7 +104,7 @@ class GMix(object):
 
         if pars is not None:
             npars = len(pars)
-            if (npars % 6) != 0:
+            if npars == 0 or (npars % 6) != 0:
                 raise ValueError(
                     "len(pars) must be mutiple of 6 " "got %s" % npars
                 )
@@ -113,6 +113,8 @@ class GMix(object):
             self.reset()
             self._fill(pars)
         else:
+            if ngauss < 1:
+                raise ValueError("ngauss must be at least 1, got %s" % ngauss)
             self._ngauss = ngauss
             self._npars = 6 * ngauss
             self.reset()
@@ -630,6 +632,9 @@ class GMix(object):
             Where to start in the array, default 0
         """
 
+        if start < 0:
+            raise ValueError("start must be >= 0, got %d" % start)
+
         nuse = fdiff.size - start
 
         image = obs.image
@@ -1056,7 +1061,7 @@ class GMixCoellip(GMixModel):
         npars = len(pars)
 
         ncheck = npars - 4
-        if (ncheck % 2) != 0:
+        if ncheck <= 0 or (ncheck % 2) != 0:
             raise ValueError(
                 "coellip must have len(pars)==4+2*ngauss, " "got %s" % npars
             )
-- 
2.43.0


From 4650b18d9f5c65797fd67a4307e238d249afbbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 61/66] fix: conversions between eta and other shapes convert
 all entries of a list

They returned the first entry only.
---
 ngmix/shape.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ngmix/shape.py b/ngmix/shape.py
index c33fa16..14a0156 100644
--- a/ngmix/shape.py
+++ b/ngmix/shape.py
@@ -362,12 +362,10 @@ def e1e2_to_eta1eta2(e1, e2):
         eta space shapes
     """
 
+    is_scalar = numpy.ndim(e1) == 0
     if not isinstance(e1, numpy.ndarray):
         e1 = numpy.array(e1, ndmin=1, copy=copy_if_needed)
         e2 = numpy.array(e2, ndmin=1, copy=copy_if_needed)
-        is_scalar = True
-    else:
-        is_scalar = False
 
     e = numpy.sqrt(e1 * e1 + e2 * e2)
     (w,) = numpy.where(e >= 1.0)
@@ -408,12 +406,10 @@ def eta1eta2_to_g1g2(eta1, eta2):
         Reduced shear space shapes
     """
 
+    is_scalar = numpy.ndim(eta1) == 0
     if not isinstance(eta1, numpy.ndarray):
         eta1 = numpy.array(eta1, ndmin=1, copy=copy_if_needed)
         eta2 = numpy.array(eta2, ndmin=1, copy=copy_if_needed)
-        is_scalar = True
-    else:
-        is_scalar = False
 
     g1 = numpy.zeros(eta1.size)
     g2 = g1.copy()
-- 
2.43.0


From 3e890eea1a4335ead107bd3ecd06fad534c534ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 62/66] fix: jacobians transform arrays of any byte order

The compiled code raised for big endian arrays, e.g. columns of FITS tables,
or used the bytes as they are, when it had seen an array of the same kind in
native order.
---
 ngmix/jacobian/jacobian.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ngmix/jacobian/jacobian.py b/ngmix/jacobian/jacobian.py
index 0b05371..552d099 100644
--- a/ngmix/jacobian/jacobian.py
+++ b/ngmix/jacobian/jacobian.py
@@ -4,6 +4,15 @@ from numpy import zeros, sqrt, abs
 __all__ = ['Jacobian', 'DiagonalJacobian', 'UnitJacobian']
 
 
+def _native(x):
+    """
+    arrays for the compiled code, which does not know other byte orders
+    """
+    if isinstance(x, np.ndarray):
+        x = np.asarray(x, dtype="f8")
+    return x
+
+
 class Jacobian(object):
     """
     A class representing a jacobian matrix of a transformation.  The
@@ -158,7 +167,7 @@ class Jacobian(object):
             The output (v,u) locations in the tangent plane.
         """
         from .jacobian_nb import jacobian_get_vu
-        return jacobian_get_vu(self._data, row, col)
+        return jacobian_get_vu(self._data, _native(row), _native(col))
 
     def get_rowcol(self, v, u):
         """
@@ -175,11 +184,11 @@ class Jacobian(object):
             The row,col image location of the input points.
         """
         from .jacobian_nb import jacobian_get_rowcol
-        return jacobian_get_rowcol(self._data, v, u)
+        return jacobian_get_rowcol(self._data, _native(v), _native(u))
 
     def __call__(self, row, col):
         from .jacobian_nb import jacobian_get_vu
-        return jacobian_get_vu(self._data, row, col)
+        return jacobian_get_vu(self._data, _native(row), _native(col))
 
     cen = property(fget=get_cen)
 
-- 
2.43.0


From f51363c40d7614c870a4cdbb5e23e18062ec9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 63/66] fix: leastsqbound starts at the guess when it is an
 array of integers

The internal coordinates of bounded parameters were cut to integers.
---
 ngmix/fitting/leastsqbound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index 6cfc5c0..8d9a2e3 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -454,7 +454,8 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     i2e = _internal2external_func(bounds)
     e2i = _external2internal_func(bounds)
 
-    x0 = asarray(x0).flatten()
+    # the internal coordinates are made like this
+    x0 = asarray(x0, dtype=float).flatten()
     i0 = e2i(x0)
     n = len(x0)
     if len(bounds) != n:
-- 
2.43.0


From 92d70c6397ff52907aa5f49d62994a4c48e5427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 64/66] fix: LMBounds can be used in joint priors

Every joint prior evaluates the log probability of its parts, which
LMBounds did not have, so any fit using it failed with AttributeError.
---
 ngmix/priors/priors.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 40b03e8..bee0ac0 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -548,6 +548,18 @@ class LMBounds(PriorBase):
         """
         return 0.0 * val
 
+    def get_lnprob_scalar(self, val):
+        """
+        Get the natural log of the probability.  Always zero, as is the fdiff;
+        the bounds are enforced by the minimizer
+
+        Parameters
+        ----------
+        val: number
+            The location at which to evaluate
+        """
+        return 0.0
+
     def sample(self, nrand=None):
         """
         Returns samples uniformly on the interval.
-- 
2.43.0


From 442c02fe31017cb739c2b908d548edd2259c0aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 65/66] fix: moments skip stored pixels without weight

With ignore_zero_weight=False such pixels are in the pixels array, and
the moment fitters divided by their zero inverse error and raised
ZeroDivisionError.
---
 ngmix/admom/admom_nb.py | 10 ++++++++++
 ngmix/gmix/gmix_nb.py   |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/ngmix/admom/admom_nb.py b/ngmix/admom/admom_nb.py
index ee2c8f0..9222dec 100644
--- a/ngmix/admom/admom_nb.py
+++ b/ngmix/admom/admom_nb.py
@@ -119,6 +119,11 @@ def admom_censums(wt, pixels, res):
     for i in range(n_pixels):
 
         pixel = pixels[i]
+
+        if pixel['ierr'] <= 0.0:
+            # no weight, not used in the moments either
+            continue
+
         weight = gmix_eval_pixel_fast(wt, pixel)
 
         wdata = weight*pixel['val']
@@ -143,6 +148,11 @@ def admom_momsums(wt, pixels, res):
     for i_pixel in range(n_pixels):
 
         pixel = pixels[i_pixel]
+
+        if pixel['ierr'] <= 0.0:
+            # no weight, the variance is not defined
+            continue
+
         weight = gmix_eval_pixel_fast(wt, pixel)
 
         var = 1.0/(pixel['ierr']*pixel['ierr'])
diff --git a/ngmix/gmix/gmix_nb.py b/ngmix/gmix/gmix_nb.py
index b7017ca..c4888d1 100644
--- a/ngmix/gmix/gmix_nb.py
+++ b/ngmix/gmix/gmix_nb.py
@@ -699,6 +699,10 @@ def get_weighted_sums(wt, pixels, res, maxrad):
 
         pixel = pixels[i_pixel]
 
+        if pixel["ierr"] <= 0.0:
+            # no weight, the variance is not defined
+            continue
+
         vmod = pixel["v"] - vcen
         umod = pixel["u"] - ucen
 
@@ -757,6 +761,10 @@ def get_higher_order_weighted_sums(wt, pixels, res, maxrad):
 
         pixel = pixels[i_pixel]
 
+        if pixel["ierr"] <= 0.0:
+            # no weight, the variance is not defined
+            continue
+
         # v and u are really dv and du
         v = pixel["v"] - vcen
         u = pixel["u"] - ucen
-- 
2.43.0


From a0eec12587ea914c3740c8cc9476a15336653a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 66/66] fix: what is in pixels without weight is not used

The psf flux multiplied the image by the weight, so that e.g. a nan in a
masked pixel made the flux nan; the sky chosen for EM was from all
pixels and the weight map was dropped; the guess for the flux and the
flux of the admom image were sums over all pixels.
---
 ngmix/admom/admom.py     |  2 +-
 ngmix/em/em.py           | 33 +++++++++++++++++++--------------
 ngmix/fitting/results.py | 18 ++++++++++++++++--
 ngmix/guessers.py        |  2 +-
 4 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/ngmix/admom/admom.py b/ngmix/admom/admom.py
index c412f7b..8499a0a 100644
--- a/ngmix/admom/admom.py
+++ b/ngmix/admom/admom.py
@@ -268,7 +268,7 @@ class AdmomResult(dict):
         jac = obs.jacobian
 
         gm = self.get_gmix()
-        gm.set_flux(obs.image.sum())
+        gm.set_flux(obs.image[obs.weight > 0].sum())
 
         im = gm.make_image(
             obs.image.shape,
diff --git a/ngmix/em/em.py b/ngmix/em/em.py
index c49bddb..2a2b1b6 100644
--- a/ngmix/em/em.py
+++ b/ngmix/em/em.py
@@ -86,23 +86,22 @@ def prep_obs(obs):
         The obs with new background level and the applied background level
     """
 
-    imsky, sky = prep_image(obs.image)
+    imsky, sky = prep_image(obs.image, weight=obs.weight)
+    keys = {
+        'weight': obs.weight,
+        'jacobian': obs.jacobian,
+        'ignore_zero_weight': False,
+    }
     if obs.has_psf():
-        newobs = Observation(
-            imsky,
-            jacobian=obs.jacobian,
-            psf=obs.psf,
-        )
-    else:
-        newobs = Observation(
-            imsky,
-            jacobian=obs.jacobian,
-        )
+        keys['psf'] = obs.psf
+
+    # the fitter fills in the pixels without weight
+    newobs = Observation(imsky, **keys)
 
     return newobs, sky
 
 
-def prep_image(im0):
+def prep_image(im0, weight=None):
     """
     Prep an image to fit with EM.  Make sure there are no pixels < 0
 
@@ -110,6 +109,8 @@ def prep_image(im0):
     ----------
     image: ndarray
         2d image
+    weight: ndarray, optional
+        The weight map.  Pixels without weight > 0 are not considered.
 
     Returns
     ------
@@ -119,8 +120,12 @@ def prep_image(im0):
     im = im0.copy()
 
     # need no zero pixels and sky value
-    im_min = im.min()
-    im_max = im.max()
+    im_used = im
+    if weight is not None and np.any(weight > 0):
+        im_used = im[weight > 0]
+
+    im_min = im_used.min()
+    im_max = im_used.max()
 
     desired_minval = 0.001 * (im_max - im_min)
 
diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 6c81fcd..d5bca08 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -587,8 +587,7 @@ class PSFFluxFitModel(dict):
             for iobs in range(nobs):
                 obs = self.obs[iobs]
 
-                im = obs.image
-                wt = obs.weight
+                im, wt = self._get_used_data(obs)
 
                 if ipass == 1:
                     model = self._get_model(iobs)
@@ -632,6 +631,21 @@ class PSFFluxFitModel(dict):
         }
         self.update(result)
 
+    def _get_used_data(self, obs):
+        """
+        get the image and weight, with zeros in both for the pixels that do
+        not have weight > 0: what is in these is not used
+        """
+        im = obs.image
+        wt = obs.weight
+
+        unused = ~(wt > 0)
+        if unused.any():
+            im = np.where(unused, 0.0, im)
+            wt = np.where(unused, 0.0, wt)
+
+        return im, wt
+
     def _get_chi2(self, model, im, wt):
         """
         get the chi^2 for this image/model
diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index de5ef7b..8b3bca6 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -826,7 +826,7 @@ class GMixPSFGuesser(object):
         of the image
         """
         scale = obs.jacobian.scale
-        flux = obs.image.sum()
+        flux = obs.image[obs.weight > 0].sum()
         # for DES 0.9/0.263 = 3.42
         fwhm = scale * 3.5
         T = moments.fwhm_to_T(fwhm)
-- 
2.43.0

