From 7caa5409fe9bd7cf9de25ca9bb075328cfe2bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 01/23] fix: pass (y, x) to trapezoid so band integrals are
 over wavelength

---
 src/kcorrect/response.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b3998dc..8ec97d7 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -392,17 +392,17 @@ class Response(object):
         numer = np.zeros(nsed, dtype=np.float32)
         if(nsed == 1):
             integrand_numer = integrate_sed * integrate_response * integrate_wave
-            numer = integrate.trapezoid(integrate_wave, np.squeeze(integrand_numer))
+            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
         else:
             for ised in np.arange(nsed, dtype=int):
                 integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
-                numer[ised] = integrate.trapezoid(integrate_wave,
-                                                  np.squeeze(integrand_numer))
+                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
+                                                  integrate_wave)
 
         # Perform integration for denominator
         integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                            integrate_response * integrate_wave)
-        denom = integrate.trapezoid(integrate_wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, integrate_wave)
 
         # AB maggies are projection of SED onto response divided by same
         # projection for the AB source.
@@ -424,11 +424,11 @@ class Response(object):
 
         # Perform integration for numerator
         integrand_numer = np.log(wave) * response / wave
-        numer = integrate.trapezoid(wave, integrand_numer)
+        numer = integrate.trapezoid(integrand_numer, wave)
 
         # Perform integration for denominator
         integrand_denom = response / wave
-        denom = integrate.trapezoid(wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, wave)
 
         # Set effective wavelength
         self.lambda_eff = np.exp(numer / denom)
-- 
2.43.0


From 0387e7d16d9d74eeff6ff0c24b78b555ac91da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 02/23] fix: KcorrectGST.to_ab works on copies and without ivar

---
 src/kcorrect/kcorrect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4a03b6d..6e58353 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1144,6 +1144,8 @@ class KcorrectGST(Kcorrect):
         fit_coeffs() and absmag() call this on their inputs if abcorrect is True.
 """
         if(ivar is not None):
+            maggies = np.array(maggies)
+            ivar = np.array(ivar)
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
@@ -1151,7 +1153,7 @@ class KcorrectGST(Kcorrect):
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
-                                                      ivar=ivar[..., 2:7])
+            maggies = np.array(maggies)
+            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0


From 87c8f2f528500083f4fca32214f9f576013fb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 03/23] fix: derived() with an explicit distance no longer
 fails on undefined dm

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 6e58353..68e41ce 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -255,6 +255,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             (array, n, distance, d1, d2,
              d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
+            dm = 2.5 * np.log10(dfactor)
         else:
             dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
             dfactor = 10.**(0.4 * dm)
-- 
2.43.0


From 502742bfb1250b9df98d5cbf9411dd6332ea7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 04/23] fix: derived() returns per-maggy mtol for bands without
 solar magnitude

---
 src/kcorrect/kcorrect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 68e41ce..c3e80b7 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -300,7 +300,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
-            solar = 10.**(- 0.4 * (f[response].solar_magnitude + dm))
+            solar_magnitude = f[response].solar_magnitude
+            if(solar_magnitude is None):
+                solar_magnitude = 0.  # leaves mtol in per maggy units
+            solar = 10.**(- 0.4 * (solar_magnitude + dm))
             rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
 
         mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
-- 
2.43.0


From 7fa6344549923c4d97867b6eaba464137ae29dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 05/23] fix: derived() sizes mtol by the output bands

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index c3e80b7..726aa9f 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -310,7 +310,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         ok = rmaggies_solar > 0.
         if(array):
             mtol[ok] = (np.outer(mremain,
-                                 np.ones(len(self.responses), dtype=np.float32))[ok] /
+                                 np.ones(len(self.responses_out), dtype=np.float32))[ok] /
                         rmaggies_solar[ok])
         else:
             mtol[ok] = mremain / rmaggies_solar[ok]
-- 
2.43.0


From cd12f7b33d615c87e54c6e486dcbaeba80e26de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 06/23] fix: Monte Carlo fit of a one-element redshift array

---
 src/kcorrect/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f18ae1a..244f788 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -420,10 +420,10 @@ class Fitter(object):
                                                                  ivar=np.squeeze(ivar),
                                                                  mc=mc)
             if(array):
-                coeffs = coeffs.reshape(1, len(coeffs))
                 if(mc > 0):
                     coeffs_mc = coeffs_mc.reshape(1, len(coeffs), mc)
-                    maggies_mc = maggies_mc.reshape(1, len(maggies), mc)
+                    maggies_mc = maggies_mc.reshape(1, len(self.responses), mc)
+                coeffs = coeffs.reshape(1, len(coeffs))
 
             if(mc > 0):
                 return(coeffs, coeffs_mc, maggies_mc)
-- 
2.43.0


From 0a31b7e776bb8c70e015ae1e49694a7e0fd2d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 07/23] fix: Monte Carlo fit of an out-of-range redshift
 returns three values

---
 src/kcorrect/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 244f788..78def22 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -202,7 +202,8 @@ class Fitter(object):
             else:
                 coeffs_mc = np.zeros((self.templates.nsed, mc),
                                      dtype=np.float32)
-                return(default_zeros, coeffs_mc)
+                maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
+                return(default_zeros, coeffs_mc, maggies_mc)
         b = maggies * inverr
 
         try:
-- 
2.43.0


From 48e42e9a1b8805bb096a18ac7547fb8738ebbd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 08/23] fix: fit of a single object with a single band

---
 src/kcorrect/fitter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 78def22..24fce8a 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -410,15 +410,16 @@ class Fitter(object):
 
         # Call single
         if(n == 1):
+            nresponses = len(self.responses)
             if(mc == 0):
                 coeffs = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                          maggies=np.squeeze(maggies),
-                                          ivar=np.squeeze(ivar),
+                                          maggies=maggies.reshape(nresponses),
+                                          ivar=ivar.reshape(nresponses),
                                           mc=mc)
             else:
                 coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                                                 maggies=np.squeeze(maggies),
-                                                                 ivar=np.squeeze(ivar),
+                                                                 maggies=maggies.reshape(nresponses),
+                                                                 ivar=ivar.reshape(nresponses),
                                                                  mc=mc)
             if(array):
                 if(mc > 0):
-- 
2.43.0


From 93c5da3a7010c6f72965ef216e9bc3c53c5e66bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 09/23] fix: failed load leaves no empty entry in the response
 registry

---
 src/kcorrect/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 8ec97d7..fae4cae 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -108,8 +108,9 @@ class ResponseDict(dict, metaclass=ResponseDictSingleton):
 """
         if((response in self) & (reload is False)):
             return
-        self[response] = Response()
-        self[response].fromdat(filename='{n}.dat'.format(n=response))
+        new_response = Response()
+        new_response.fromdat(filename='{n}.dat'.format(n=response))
+        self[response] = new_response
         return
 
 
-- 
2.43.0


From dfd72339e9b07e212481cbd165987d53b7ea6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 10/23] fix: apply the extinction factor to the asinh inverse
 variance too

---
 src/kcorrect/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25e984b..1babfaf 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -307,6 +307,7 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
                                                 - (0.4 * np.log(10.) *
                                                    mag[..., k])) *
                            0.4 * np.log(10.) * mag_err[..., k])
+            maggies_err = maggies_err * 10.**(0.4 * extinction[..., k])
             maggies_ivar[..., k] = 1. / maggies_err**2
 
     if(mag_err is None):
-- 
2.43.0


From e86fd2e04b9e4a386a6e6f7e784d1e8483a8db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 11/23] fix: absmag_mc() outputs have one entry per output band

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 726aa9f..075c9c3 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -672,11 +672,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
-        absmag_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+        shape_mc = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
+        absmag_mc = np.zeros(shape_mc, dtype=np.float32)
         if(reconstruct):
-            absmag_reconstruct_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            absmag_reconstruct_mc = np.zeros(shape_mc, dtype=np.float32)
         if(kcorrect):
-            kcorrect_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            kcorrect_mc = np.zeros(shape_mc, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-- 
2.43.0


From 908920c9e012973608134d6795b7065ce4c833e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 12/23] fix: reconstructed absolute magnitude is the model
 magnitude in the output band

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 075c9c3..ae0fba1 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -583,7 +583,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         absmag[bd] = - 9999.
 
         if(reconstruct):
-            omaggies = self.reconstruct_out(redshift=redshift, coeffs=coeffs,
+            omaggies = self.reconstruct_out(redshift=0. * redshift,
+                                            coeffs=coeffs,
                                             band_shift=band_shift)
             gd = np.where(omaggies > 0.)
             bd = np.where(omaggies <= 0.)
@@ -591,9 +592,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
             omags[gd] = - 2.5 * np.log10(omaggies[gd])
             absmag_reconstruct = np.zeros(omaggies.shape, dtype=np.float32) - 9999.
             if(array):
-                absmag_reconstruct[gd] = omags[gd] - dm[gd] - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm[gd]
             else:
-                absmag_reconstruct[gd] = omags[gd] - dm - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm
             absmag_reconstruct[bd] = - 9999.
 
         if(limit):
-- 
2.43.0


From 55f3cd3b567b427cf76f001e79a1a0e3c35597a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 13/23] fix: absolute magnitude limit is -9999 for zero
 coefficients, as documented

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index ae0fba1..7b8ece6 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -599,9 +599,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         if(limit):
             absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
-            gd = np.where(use_ivar > 0.)
-            bd = np.where(use_ivar <= 0.)
-            
+            notzero = (coeffs.sum(axis=-1) > 0)[..., np.newaxis]
+            gd = np.where((use_ivar > 0.) & notzero)
+            bd = np.where((use_ivar <= 0.) | ~notzero)
+
             lmags = np.zeros(use_maggies.shape, dtype=np.float32)
             lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
 
-- 
2.43.0


From 5309a69ebf225780ac3e8e6bc9306b246f179fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 14/23] fix: project a bandpass that lies between two adjacent
 SED wavelengths

---
 src/kcorrect/response.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index fae4cae..e1b7d32 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -375,12 +375,16 @@ class Response(object):
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
         ikeep = np.where(keep)[0]
         if(len(ikeep) == 0):
-            return(0.)
-
-        if(ikeep[0] > 0):
-            keep[ikeep[0] - 1] = 1
-        if(ikeep[-1] < len(sed_wave) - 1):
-            keep[ikeep[-1] + 1] = 1
+            iabove = np.where(sed_wave > self.wave[-1])[0]
+            if((len(iabove) == 0) or (iabove[0] == 0)):
+                return(0.)
+            # bandpass lies between two adjacent SED wavelengths
+            keep[iabove[0] - 1:iabove[0] + 1] = True
+        else:
+            if(ikeep[0] > 0):
+                keep[ikeep[0] - 1] = 1
+            if(ikeep[-1] < len(sed_wave) - 1):
+                keep[ikeep[-1] + 1] = 1
 
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
-- 
2.43.0


From 561f16b1d3211e40ae5a91e136b46c655eb664f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 15/23] fix: all_responses() checks validity of the files in
 response_dir

---
 src/kcorrect/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index e1b7d32..cb2bd92 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -69,7 +69,9 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                 valid = True
                 if(check_validity):
                     try:
-                        f.load_response(response)
+                        checked = Response()
+                        checked.fromdat(filename=os.path.abspath(os.path.join(rdir, filename)))
+                        f.setdefault(response, checked)
                     except:
                         valid = False
                 if(valid):
-- 
2.43.0


From ea55f59b71f74c87ec91da3d5f4c6bd291c5b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 16/23] fix: Kcorrect.tofits() without the removed
 np.compat.unicode

---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 7b8ece6..fedc322 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -747,19 +747,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses', str, 200)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_out', str, 200)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_map', str, 200)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From 6ffb4588a7872840084e46d26fe72d3842f4d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 17/23] fix: Kcorrect.tofits() keeps non-integer redshift
 ranges

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index fedc322..0d61064 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -736,7 +736,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         
         hdul = fits.open(filename, mode='update')
         data_dtype = np.dtype([('nredshift', np.int32),
-                               ('redshift_range', np.int32, 2),
+                               ('redshift_range', np.float32, 2),
                                ('abcorrect', bool)])
         data = np.zeros(1, dtype=data_dtype)
         data['nredshift'] = self.nredshift
-- 
2.43.0


From 7f06096461bc851ec1f5c566670dd12b5abf76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 18/23] fix: Kcorrect.fromfits() restores settings as scalars

---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 0d61064..c9d48c6 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -795,9 +795,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul = fits.open(filename)
 
         data = hdul['DATA'].data
-        self.nredshift = data['nredshift']
-        self.redshift_range = data['redshift_range']
-        self.abcorrect = data['abcorrect']
+        self.nredshift = int(data['nredshift'][0])
+        self.redshift_range = np.float32(data['redshift_range'][0])
+        self.abcorrect = bool(data['abcorrect'][0])
 
         self.redshifts = hdul['REDSHIFTS'].data
         self.responses = list(hdul['RESPONSES'].data['responses'])
-- 
2.43.0


From 90aeb1b09aedb9a41e3f786a572a5eaace35d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 19/23] fix: Kcorrect.fromfits() loads the output responses

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index c9d48c6..2b436ec 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -805,7 +805,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
 
         f = kcorrect.response.ResponseDict()
-        for response in self.responses:
+        for response in self.responses + self.responses_out:
             f.load_response(response)
 
         A = hdul['A'].data
-- 
2.43.0


From 4e5f2a06d0d6072f35525856b8b3927b8edf7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 20/23] fix: Kcorrect.fromfits() restores the response index
 map

---
 src/kcorrect/kcorrect.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 2b436ec..43d0ebd 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -168,13 +168,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             else:
                 self.AmatrixOut = self._calc_Amatrix(responses=self.responses_out)
 
-        # Get index map to calculate kcorrection
-        self.imap = np.zeros(len(self.responses_map), dtype=int)
-        for i, response in enumerate(self.responses_map):
-            try:
-                self.imap[i] = self.responses.index(response)
-            except ValueError:
-                raise ValueError("responses_map must contain only responses defined in responses")
+        self._set_imap()
 
         # Initialize cosmology used for derived properties and absmag
         if(cosmo is not None):
@@ -184,6 +178,16 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         return
 
+    def _set_imap(self):
+        """Get index map to calculate kcorrection"""
+        self.imap = np.zeros(len(self.responses_map), dtype=int)
+        for i, response in enumerate(self.responses_map):
+            try:
+                self.imap[i] = self.responses.index(response)
+            except ValueError:
+                raise ValueError("responses_map must contain only responses defined in responses")
+        return
+
     def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):
         """Return derived quantities based on coefficients
 
@@ -815,6 +819,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                                     A=Aout)
 
         hdul.close()
+        self._set_imap()
         return
 
 
-- 
2.43.0


From 23dbebdde72fae05ed16ba4141d1e20e69d07d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 21/23] fix: sdss_ab_correct rejects stacks without exactly
 five bands

A stack with more than five bands was accepted and its extra bands were
returned as zero flux with zero inverse variance.
---
 src/kcorrect/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 1babfaf..ab21124 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -172,6 +172,8 @@ def sdss_ab_correct(maggies=None, ivar=None,
         if(ivar is not None):
             ab_ivar = ivar / abfac**2
     else:
+        if(maggies.shape[-1] != 5):
+            raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
         ab_maggies = np.zeros(maggies.shape, dtype=np.float32)
         for i, cabfac in enumerate(abfac):
             ab_maggies[..., i] = maggies[..., i] * cabfac
-- 
2.43.0


From 9cbf8f3df880498266e6a2eb3b0ba4a24d384ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 22/23] fix: error_floor() keeps the floored values of an
 integer ivar

The floored values were written back into an array of the input's dtype,
so an integer ivar had them truncated (and the error ended below the floor).
---
 src/kcorrect/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index ab21124..3cf4bba 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -212,6 +212,8 @@ def error_floor(floor=None, maggies=None, ivar=None):
     floor = np.array(floor)
     maggies = np.array(maggies)
     ivar = np.array(ivar)
+    if(np.issubdtype(ivar.dtype, np.integer)):
+        ivar = ivar.astype(np.float32)
 
     if(maggies.ndim == 1):
         array = False
-- 
2.43.0


From 48fcc5e262db4d562bea9e296172660ac6cd8626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 23/23] fix: KcorrectGST.to_ab() corrects integer input

The corrected SDSS bands were written back into an array of the input's dtype,
so integer maggies or ivar had them truncated; the documented output is np.float32.
---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 43d0ebd..fbad523 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1156,8 +1156,8 @@ class KcorrectGST(Kcorrect):
         fit_coeffs() and absmag() call this on their inputs if abcorrect is True.
 """
         if(ivar is not None):
-            maggies = np.array(maggies)
-            ivar = np.array(ivar)
+            maggies = np.array(maggies, dtype=np.float32)
+            ivar = np.array(ivar, dtype=np.float32)
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
@@ -1165,7 +1165,7 @@ class KcorrectGST(Kcorrect):
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            maggies = np.array(maggies)
+            maggies = np.array(maggies, dtype=np.float32)
             smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0

