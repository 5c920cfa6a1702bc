From 614e9d19a16cda67753bce69e554ee2aae2f7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 01/44] fix: perfect estimate adds the light of all stars in
 serial mode too

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 6e38f8e..58bcdad 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -190,7 +190,7 @@ def perfect(mp, ev):
                 EmatSubband += mp.full.lambda_weights[wi] * E2D
 
             if isPiston:
-                ev.imageArray[:, :, 0, modvar.sbpIndex] = np.abs(EmatSubband)**2
+                ev.imageArray[:, :, 0, modvar.sbpIndex] += np.abs(EmatSubband)**2
 
             Eest[:, iMode] = EmatSubband[mp.Fend.corr.maskBool]
 
-- 
2.43.0


From c58d765a79b0807f322449cdc4b53ddf64f05ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 02/44] fix: parallel band-averaged image includes image noise
 and extra stars

---
 falco/imaging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 316435c..118a8c2 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -267,7 +267,10 @@ def get_summed_image(mp):
     if type(mp) is not falco.config.ModelParameters:
         raise TypeError('Input "mp" must be of type ModelParameters')
 
-    if not (mp.flagParallel and mp.flagSim):
+    # Image noise is added per sub-band, and each extra star adds its own light,
+    # so build the image from sub-band images (parallel in wavelength) for those.
+    if (not (mp.flagParallel and mp.flagSim) or mp.flagImageNoise
+            or mp.star.count > 1):
         summedImage = 0
         for si in range(mp.Nsbp):
             summedImage += mp.sbp_weights[si] * get_sbp_image(mp, si)
-- 
2.43.0


From 50a3d9e68826ce280043e3e5694deeb53bce7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 03/44] fix: keep polarization state and HLC occulter private
 to each thread

Threads evaluating the full model at different wavelengths or polarization
states overwrote each other's mp.full.polaxis and mp.F3.full.mask.
---
 falco/imaging.py      | 20 +++++++++++++++++---
 falco/model/models.py | 11 +++++++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 118a8c2..b217e69 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -1,4 +1,5 @@
 """Functions for generating images in FALCO."""
+import copy
 import numpy as np
 import multiprocessing
 from concurrent.futures import ThreadPoolExecutor as PoolExecutor
@@ -327,6 +328,19 @@ def get_summed_image(mp):
     return summedImage
 
 
+def _copy_with_polaxis(mp, polaxis):
+    """
+    Shallow copy of mp in which mp.full.polaxis is set.
+
+    Images at several polarization states are computed in parallel threads, so
+    the polarization state must not be stored in the shared mp.
+    """
+    mp = copy.copy(mp)
+    mp.full = copy.copy(mp.full)
+    mp.full.polaxis = polaxis
+    return mp
+
+
 def _get_single_sim_full_image_one_arg(mp):
     """Use only with get_summed_image."""
     ilist = mp.ilist
@@ -338,7 +352,7 @@ def _get_single_sim_full_image_one_arg(mp):
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
-    mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
+    mp = _copy_with_polaxis(mp, pol)
     modvar.whichSource = 'star'
     modvar.starIndex = 0
     Estar = falco.model.full(mp, modvar)
@@ -355,7 +369,7 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
-    mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
+    mp = _copy_with_polaxis(mp, pol)
     modvar.whichSource = 'star'
     modvar.starIndex = 0
     Estar = falco.model.full(mp, modvar)
@@ -484,7 +498,7 @@ def _get_subband_image_component(mp, si, ilist, inds_list):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
-    mp.full.polaxis = mp.full.pol_conds[ipol]
+    mp = _copy_with_polaxis(mp, mp.full.pol_conds[ipol])
     modvar.whichSource = 'star'
     modvar.starIndex = iStar
     Estar = falco.model.full(mp, modvar)
diff --git a/falco/model/models.py b/falco/model/models.py
index cc82748..f9e90cc 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -19,6 +19,14 @@ import logging
 log = logging.getLogger(__name__)
 
 
+def _copy_for_fpm(mp, whichModel):
+    """Shallow copy of mp in which mp.F3.<whichModel> is safe to modify."""
+    mp = copy.copy(mp)
+    mp.F3 = copy.copy(mp.F3)
+    setattr(mp.F3, whichModel, copy.copy(getattr(mp.F3, whichModel)))
+    return mp
+
+
 def full(mp, modvar, isNorm=True):
     """
     Truth model used to generate images in simulation.
@@ -115,6 +123,9 @@ def full(mp, modvar, isNorm=True):
         ilam = modvar.sbpIndex
 
     if mp.coro.upper() == 'HLC':
+        # Use a private copy of mp.F3.full because the full model can be called
+        # from several threads at once, each at a different wavelength.
+        mp = _copy_for_fpm(mp, 'full')
         if mp.layout.lower() == 'fourier' or mp.layout.lower() == 'proper':
             if hasattr(mp.full, 'fpmCube'):
                 mp.F3.full.mask = mp.full.fpmCube[:, :, ilam]
-- 
2.43.0


From 27d614b9d0a6fc9cec829c566e5900df7380c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 04/44] fix: parallel Jacobian fills columns by position and
 only for active DMs

---
 falco/model/models.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index f9e90cc..6a691ad 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1167,14 +1167,18 @@ def jacobian(mp):
             #     )
             # results_tuple = tuple(result)
 
-            results_order_dm1 = [(imode, idm, iact) for iact in mp.dm1.act_ele for idm in [1, ] for imode in range(mp.jac.Nmode)]
-            results_order_dm2 = [(imode, idm, iact) for iact in mp.dm2.act_ele for idm in [2, ] for imode in range(mp.jac.Nmode)]
+            results_order_dm1 = []
+            results_order_dm2 = []
+            if any(mp.dm_ind == 1):
+                results_order_dm1 = [(imode, 1, index, iact) for index, iact in enumerate(mp.dm1.act_ele) for imode in range(mp.jac.Nmode)]
+            if any(mp.dm_ind == 2):
+                results_order_dm2 = [(imode, 2, index, iact) for index, iact in enumerate(mp.dm2.act_ele) for imode in range(mp.jac.Nmode)]
             results_order = results_order_dm1 + results_order_dm2
 
             with PoolExecutor(max_workers=mp.Nthreads) as executor:
                 result = executor.map(
                     lambda p: _jac_middle_layer(*p),
-                    [(mp, imode, idm, iact) for imode, idm, iact in results_order]
+                    [(mp, imode, idm, iact) for imode, idm, index, iact in results_order]
                 )
             results_tuple = tuple(result)
 
@@ -1182,15 +1186,15 @@ def jacobian(mp):
             for ii in range(len(results_order)):
                 imode = results_order[ii][0]
                 idm = results_order[ii][1]
-                iact = results_order[ii][2]
+                index = results_order[ii][2]
                 if idm == 1:
-                    jacStruct.G1[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G1[:, index, imode] = results_tuple[ii]
                 if idm == 2:
-                    jacStruct.G2[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G2[:, index, imode] = results_tuple[ii]
                 if idm == 8:
-                    jacStruct.G8[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G8[:, index, imode] = results_tuple[ii]
                 if idm == 9:
-                    jacStruct.G9[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G9[:, index, imode] = results_tuple[ii]
 
             print('done.')
 
-- 
2.43.0


From 77b27c9106ca6fccd0ddc298f4e1673abe7a58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 05/44] fix: Zernike maps take the grid size from the
 wavefront, not from a global

A thread starting another wavefront changed proper.n under a Zernike map being
computed in parallel.
---
 falco/proper/prop_zernikes.py | 2 +-
 falco/zern.py                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_zernikes.py b/falco/proper/prop_zernikes.py
index d961472..226f54e 100644
--- a/falco/proper/prop_zernikes.py
+++ b/falco/proper/prop_zernikes.py
@@ -110,7 +110,7 @@ def prop_zernikes(a, zernike_num, zernike_val, eps = 0., **kwargs):
     """
     zernike_num = np.asarray(zernike_num)
     zernike_val = np.asarray(zernike_val)
-    n = proper.n
+    n = proper.prop_get_gridsize(a)
     
     if proper.print_it and not proper.switch_set("NO_APPLY",**kwargs):
         if "NAME" in kwargs:
diff --git a/falco/zern.py b/falco/zern.py
index 4a17202..4ada7ad 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -496,7 +496,7 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
     """
     zernike_num = np.asarray(zernike_num)
     zernike_val = np.asarray(zernike_val)
-    n = proper.n
+    n = proper.prop_get_gridsize(a)
 
     if proper.print_it and not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
         if "NAME" in kwargs:
-- 
2.43.0


From 318fc917c98ebe4d1527105866d79b6f630f1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 06/44] fix: Zernike sensitivities of a single mode no longer
 crash

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 4ada7ad..20c389a 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -207,7 +207,7 @@ def calc_zern_sens(mp):
 
     # Compute Zernike sensitivity values averaged across each annulus in dark hole
     # |dE|^2 averaged over wavelength and polarization state
-    dE2cube = np.squeeze(np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2))
+    dE2cube = np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2)
     dE2mat = np.zeros((Nzern, Nannuli))
     for iz in range(Nzern):
         dEtemp = np.squeeze(dE2cube[:, :, iz])
-- 
2.43.0


From 8a560518d3bcff0ef431022ef17281d364f5d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 07/44] fix: Zernike sensitivities no longer leave aberrations
 in the shared model

The Zernike coefficients given to PROPER models (zval) were never restored, and
nothing was restored when the model raised.
---
 falco/zern.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 20c389a..dd5d67f 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -254,10 +254,12 @@ def falco_get_single_sim_Efield_LamPol(ni, inds_list, mp):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 1]
-    mp.full.polaxis = mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = 0
     modvar.zernIndex = 1
+    mp = copy.copy(mp)
+    mp.full = copy.copy(mp.full)
+    mp.full.polaxis = mp.full.pol_conds[ipol]
     Estar = falco.model.full(mp, modvar)
 
     return Estar
@@ -300,13 +302,17 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
-    mp.full.polaxis = mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = 0
 
-    # Save the original input E-field as E0 to reset it later
-    E = mp.P1.full.E
-    E0 = E.copy()
+    # Apply the polarization state and Zernike mode to a copy of the parts of
+    # mp that they modify.
+    mp = copy.copy(mp)
+    mp.full = copy.copy(mp.full)
+    mp.P1 = copy.copy(mp.P1)
+    mp.P1.full = copy.copy(mp.P1.full)
+    mp.P1.full.E = mp.P1.full.E.copy()
+    mp.full.polaxis = mp.full.pol_conds[ipol]
 
     # Initialize the Zernike modes to include as empty if the variable doesn't exist already
     if not hasattr(mp.full, 'zindex'):
@@ -314,6 +320,7 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
         mp.full.zval_m = np.array([])
     zindex0 = copy.copy(mp.full.zindex)  # Save the original
     zval_m0 = copy.copy(mp.full.zval_m)  # Save the original
+    mp.full.zval_m = zval_m0.copy()
 
     if(mp.full.flagPROPER):  # WARNING: THIS OPTION HAS NOT BEEN TESTED
 
@@ -335,9 +342,6 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
             np.squeeze(mp.P1.full.E[:, :, wi, si])
 
     Estar = falco.model.full(mp, modvar)
-    mp.P1.full.E = E0  # Reset to original value
-    mp.full.zindex = zindex0
-    mp.full.zval_m = zval_m0
 
     return Estar
 
-- 
2.43.0


From 983190b418b212e19f14b6be6fc31e721764f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 08/44] fix: computing a DM surface no longer alters the
 command or pins actuators

Candidate commands that exceed the voltage limits are evaluated during the
controller's grid search; evaluating them pinned the actuators for good even
when the candidate was rejected.
---
 falco/dm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 3c42546..7008377 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1,4 +1,5 @@
 """Module for DM-related functions."""
+import copy
 import os
 from math import sin, cos, radians
 
@@ -64,8 +65,10 @@ def gen_surf_from_act(dm, dx, Nout):
 
     bm = proper.prop_begin(Narray*dx, wl_dummy, Narray, pupil_ratio)
 
-    # Apply various constraints to DM commands
-    dm = enforce_constraints(dm)
+    # Apply various constraints to DM commands. Work on a private copy because
+    # evaluating a command must not alter it or pin any actuators.
+    dmIn = dm
+    dm = enforce_constraints(copy.copy(dm))
 
     # Quantization of DM actuation steps based on least significant bit of the
     # DAC (digital-analog converter). In height, so called HminStep
@@ -115,6 +118,7 @@ def gen_surf_from_act(dm, dx, Nout):
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
+            dmIn.differentiableModel = dm.differentiableModel  # reuse later
         else:
             dm.differentiableModel.update(heightMap)
             
-- 
2.43.0


From 7cb32a04f69efb73c2847c287ad1f02813669921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 09/44] fix: railed actuators are set to the limit of the total
 voltage

The limits apply to command plus bias, but the command itself was set to the
limit, which put the total voltage out of range.
---
 falco/dm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 7008377..ad4b01d 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -919,14 +919,15 @@ def enforce_constraints(dm):
 
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
+    biasVec = np.broadcast_to(dm.biasMap, dm.V.shape).flatten()
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmin*np.ones(new_inds.size)
+    new_vals = dm.Vmin - biasVec[new_inds]  # the limits are on the total voltage
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmax*np.ones(new_inds.size)
+    new_vals = dm.Vmax - biasVec[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
-- 
2.43.0


From 5607650c6e3f2c77443bfcecc8ae541331b4e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 10/44] fix: scheduled probe settings no longer crash the
 estimator

---
 falco/est.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 58bcdad..54bd8fb 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -249,28 +249,32 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # If scheduled, change some aspects of the probe.
     # None values mean they are not scheduled.
     if mp.est.probeSchedule.xOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.xOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.xOffsetVec,
+                         'mp.est.probeSchedule.xOffsetVec', TypeError)
         if len(mp.est.probeSchedule.xOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.xOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.xOffset = mp.est.probeSchedule.xOffsetVec[Itr]
 
     if mp.est.probeSchedule.yOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.yOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.yOffsetVec,
+                         'mp.est.probeSchedule.yOffsetVec', TypeError)
         if len(mp.est.probeSchedule.yOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.yOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.yOffset = mp.est.probeSchedule.yOffsetVec[Itr]
 
     if mp.est.probeSchedule.rotationVec is not None:
-        check.oneD_array(mp.est.probeSchedule.rotationVec)
+        check.oneD_array(mp.est.probeSchedule.rotationVec,
+                         'mp.est.probeSchedule.rotationVec', TypeError)
         if len(mp.est.probeSchedule.rotationVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.rotationVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.rotation = mp.est.probeSchedule.rotationVec[Itr]
 
     if mp.est.probeSchedule.InormProbeVec is not None:
-        check.oneD_array(mp.est.probeSchedule.InormProbeVec)
+        check.oneD_array(mp.est.probeSchedule.InormProbeVec,
+                         'mp.est.probeSchedule.InormProbeVec', TypeError)
         if len(mp.est.probeSchedule.InormProbeVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.InormProbeVec must have '
                              'enough values for all WFSC iterations.')
@@ -423,7 +427,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                                      ev.InormProbeMax])
                 print('Chosen probe intensity: %.2e' % InormProbe)
             else:
-                InormProbe = mp.est.probeSchedule.InormProbeVec(Itr)
+                InormProbe = mp.est.probeSchedule.InormProbeVec[Itr]
                 print('Scheduled probe intensity: %.2e' % InormProbe)
 
             # Perform the probing
-- 
2.43.0


From a4c78f3c21fb27f8abbb91d39e2b71d25fd77b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 11/44] fix: pairwise probing restores DM commands, also after
 a failure

The command of a DM not used for control was zeroed, and a failure while
taking images left the last probe on the DM and the probing DM selected.
---
 falco/est.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 54bd8fb..b02bf8c 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -237,6 +237,23 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         Outputs are included in the object ev.
 
     """
+    # Whatever happens during the probing (e.g., an image cannot be taken),
+    # leave the DM commands and the set of used DMs as they were.
+    dm_ind_init = mp.dm_ind
+    DM1Vinit = mp.dm1.V.copy()
+    DM2Vinit = mp.dm2.V.copy()
+    try:
+        _pairwise_probing(mp, ev, jacStruct)
+    finally:
+        mp.dm_ind = dm_ind_init
+        mp.dm1.V = DM1Vinit
+        mp.dm2.V = DM2Vinit
+
+    return None
+
+
+def _pairwise_probing(mp, ev, jacStruct):
+    """Perform the probing and estimation for pairwise_probing()."""
     Itr = ev.Itr
     whichDM = mp.est.probe.whichDM
 
@@ -281,7 +298,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
 
     # Temporarily augment which DMs are used if the probing DM isn't used for control.
     mp.dm_ind_init = mp.dm_ind.copy()
-    mp.dm_ind = list(mp.dm_ind)
+    mp.dm_ind = np.array(mp.dm_ind)
     if whichDM == 1 and ~np.any(mp.dm_ind == 1):
         mp.dm_ind = np.concatenate((mp.dm_ind, [1]))
     elif whichDM == 2 and ~np.any(mp.dm_ind == 2):
@@ -295,16 +312,9 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     else:
         raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
-    # Store the initial DM commands
-    if np.any(mp.dm_ind == 1):
-        DM1Vnom = mp.dm1.V.copy()
-    else:
-        DM1Vnom = np.zeros((mp.dm1.Nact, mp.dm1.Nact))
-
-    if np.any(mp.dm_ind == 2):
-        DM2Vnom = mp.dm2.V.copy()
-    else:
-        DM2Vnom = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
+    # Store the initial DM commands, also of DMs not used for control
+    DM1Vnom = mp.dm1.V.copy()
+    DM2Vnom = mp.dm2.V.copy()
 
     # Initialize output arrays
     Npairs = mp.est.probe.Npairs  # Number of image PAIRS
-- 
2.43.0


From 737ceec50566d1760fce4a878e56405900c40a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 12/44] fix: Jacobian-based pairwise estimation uses matrix
 products

The Jacobian was multiplied element-wise with the 2-D probe command and the
observation matrix was transposed, so the option crashed or gave a wrong field.
---
 falco/est.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index b02bf8c..f395826 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -546,13 +546,13 @@ def _pairwise_probing(mp, ev, jacStruct):
                     if whichDM == 1:
                         dV = DM1Vplus[:, :, iProbe] - DM1Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G1[:, :, iSubband]) * \
-                            dV[mp.dm1.act_ele]
+                            jacStruct.G1[:, :, modeIndex] @ \
+                            dV.flatten()[mp.dm1.act_ele]
                     elif whichDM == 2:
                         dV = DM2Vplus[:, :, iProbe] - DM2Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G2[:, :, iSubband]) * \
-                            dV[mp.dm2.act_ele]
+                            jacStruct.G2[:, :, modeIndex] @ \
+                            dV.flatten()[mp.dm2.act_ele]
 
             # Get the probe phase from the model
             # and the probe amplitude from the measurements
@@ -613,7 +613,7 @@ def _pairwise_probing(mp, ev, jacStruct):
 
                     if mp.est.flagUseJac:
                         dE = dEplus[ipix, :].T
-                        H = np.array([np.real(dE), np.imag(dE)])
+                        H = np.array([np.real(dE), np.imag(dE)]).T
                         Epix = np.linalg.pinv(H) @ zAll[:, ipix]  # Batch processing
                     else:
                         allProbeInds = np.arange(Npairs, dtype=int)
-- 
2.43.0


From fbbf013b4c159a293e6991e1a2f82710cb502101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 13/44] fix: trial DM commands are withdrawn also when their
 evaluation fails

---
 falco/ctrl.py         | 66 ++++++++++++++++++++-----------------------
 falco/imaging.py      | 56 ++++++++++++++++++------------------
 falco/model/models.py | 14 +++++----
 3 files changed, 67 insertions(+), 69 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 5c83f1a..9ac768f 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -800,6 +800,18 @@ def efc_schedule_generator(scheduleMatrix):
     return Nitr, relinItrVec, gridSearchItrVec, log10regSched, dm_ind_sched
 
 
+def _get_dm_commands(mp):
+    """Copy the commands of all the DMs in use."""
+    return [(getattr(mp, 'dm%d' % idm), getattr(mp, 'dm%d' % idm).V.copy())
+            for idm in (1, 2, 8, 9) if any(mp.dm_ind == idm)]
+
+
+def _set_dm_commands(commands):
+    """Put back the DM commands stored with _get_dm_commands()."""
+    for dm, V in commands:
+        dm.V = V
+
+
 def _efc(ni, vals_list, mp, cvar):
     """
     Compute the main EFC equation. Called by a wrapper controller function.
@@ -823,15 +835,16 @@ def _efc(ni, vals_list, mp, cvar):
     dDM : ModelParameters
         Structure containing the delta DM commands for each DM
     """
-    if any(mp.dm_ind == 1):
-        DM1V0 = mp.dm1.V.copy()
-    if any(mp.dm_ind == 2):
-        DM2V0 = mp.dm2.V.copy()
-    if any(mp.dm_ind == 8):
-        DM8V0 = mp.dm8.V.copy()
-    if any(mp.dm_ind == 9):
-        DM9V0 = mp.dm9.V.copy()
+    # The trial command must not stay on the DMs, even if its evaluation fails.
+    commands = _get_dm_commands(mp)
+    try:
+        return _efc_trial(ni, vals_list, mp, cvar)
+    finally:
+        _set_dm_commands(commands)
+
 
+def _efc_trial(ni, vals_list, mp, cvar):
+    """Compute and evaluate the trial command for _efc()."""
     # Initializations
     log10reg = vals_list[ni][0]  # log 10 of regularization value
     dmfac = vals_list[ni][1]  # Scaling factor for entire DM command
@@ -860,16 +873,6 @@ def _efc(ni, vals_list, mp, cvar):
         InormAvg = np.mean(Itotal[mp.Fend.corr.maskBool])
     dDM.Itotal = Itotal
 
-    # Reset voltage commands in mp
-    if any(mp.dm_ind == 1):
-        mp.dm1.V = DM1V0
-    if any(mp.dm_ind == 2):
-        mp.dm2.V = DM2V0
-    if any(mp.dm_ind == 8):
-        mp.dm8.V = DM8V0
-    if any(mp.dm_ind == 9):
-        mp.dm9.V = DM9V0
-
     return InormAvg, dDM
 
 
@@ -898,15 +901,16 @@ def _ad_efc(ni, vals_list, mp, cvar):
     dDM : ModelParameters
         Structure containing the delta DM commands for each DM
     """
-    if any(mp.dm_ind == 1):
-        DM1V0 = mp.dm1.V.copy()
-    if any(mp.dm_ind == 2):
-        DM2V0 = mp.dm2.V.copy()
-    if any(mp.dm_ind == 8):
-        DM8V0 = mp.dm8.V.copy()
-    if any(mp.dm_ind == 9):
-        DM9V0 = mp.dm9.V.copy()
+    # The trial command must not stay on the DMs, even if its evaluation fails.
+    commands = _get_dm_commands(mp)
+    try:
+        return _ad_efc_trial(ni, vals_list, mp, cvar)
+    finally:
+        _set_dm_commands(commands)
 
+
+def _ad_efc_trial(ni, vals_list, mp, cvar):
+    """Compute and evaluate the trial command for _ad_efc()."""
     # Initializations
     log10reg = vals_list[ni][0]  # log 10 of regularization value
     dmfac = vals_list[ni][1]  # Scaling factor for entire DM command
@@ -1023,16 +1027,6 @@ def _ad_efc(ni, vals_list, mp, cvar):
         InormAvg = np.mean(Itotal[mp.Fend.corr.maskBool])
     dDM.Itotal = Itotal
 
-    # Reset voltage commands in mp
-    if any(mp.dm_ind == 1):
-        mp.dm1.V = DM1V0
-    if any(mp.dm_ind == 2):
-        mp.dm2.V = DM2V0
-    if any(mp.dm_ind == 8):
-        mp.dm8.V = DM8V0
-    if any(mp.dm_ind == 9):
-        mp.dm9.V = DM9V0
-
     return InormAvg, dDM
 
 
diff --git a/falco/imaging.py b/falco/imaging.py
index b217e69..09a6887 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -557,23 +557,35 @@ def get_expected_summed_image(mp, cvar, dDM):
         Etemp = falco.model.compact(mp, modvar)
         EnewTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
 
-    # Revert to the previous DM commands
-    if any(mp.dm_ind == 1):
-        mp.dm1.V = mp.dm1.V - dDM.dDM1V
-    if any(mp.dm_ind == 2):
-        mp.dm2.V = mp.dm2.V - dDM.dDM2V
-    if any(mp.dm_ind == 8):
-        mp.dm8.V = mp.dm8.V - dDM.dDM8V
-    if any(mp.dm_ind == 9):
-        mp.dm9.V = mp.dm9.V - dDM.dDM9V
-
-    # Generate the model-based E-field with the previous DM setting
-    modvar.whichSource = 'star'
-    modvar.wpsbpIndex = 0  # Dummy, placeholder value
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
-        Etemp = falco.model.compact(mp, modvar)
-        EoldTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+    try:
+        # Revert to the previous DM commands
+        if any(mp.dm_ind == 1):
+            mp.dm1.V = mp.dm1.V - dDM.dDM1V
+        if any(mp.dm_ind == 2):
+            mp.dm2.V = mp.dm2.V - dDM.dDM2V
+        if any(mp.dm_ind == 8):
+            mp.dm8.V = mp.dm8.V - dDM.dDM8V
+        if any(mp.dm_ind == 9):
+            mp.dm9.V = mp.dm9.V - dDM.dDM9V
+
+        # Generate the model-based E-field with the previous DM setting
+        modvar.whichSource = 'star'
+        modvar.wpsbpIndex = 0  # Dummy, placeholder value
+        for si in range(mp.Nsbp):
+            modvar.sbpIndex = si
+            Etemp = falco.model.compact(mp, modvar)
+            EoldTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+
+    finally:
+        # Reset voltage commands in mp
+        if any(mp.dm_ind == 1):
+            mp.dm1.V = DM1V0
+        if any(mp.dm_ind == 2):
+            mp.dm2.V = DM2V0
+        if any(mp.dm_ind == 8):
+            mp.dm8.V = DM8V0
+        if any(mp.dm_ind == 9):
+            mp.dm9.V = DM9V0
 
     # Compute the expected new 2-D intensity image
     for si in range(mp.Nsbp):
@@ -584,16 +596,6 @@ def get_expected_summed_image(mp, cvar, dDM):
 
         Ibandavg += mp.sbp_weights[si]*np.abs(Eexpected2D)**2
 
-    # Reset voltage commands in mp
-    if any(mp.dm_ind == 1):
-        mp.dm1.V = DM1V0
-    if any(mp.dm_ind == 2):
-        mp.dm2.V = DM2V0
-    if any(mp.dm_ind == 8):
-        mp.dm8.V = DM8V0
-    if any(mp.dm_ind == 9):
-        mp.dm9.V = DM9V0
-
     return Ibandavg
 
 
diff --git a/falco/model/models.py b/falco/model/models.py
index 6a691ad..a67f6b5 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -531,12 +531,14 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         # Get model-based E-field With delta DM commands applied.
         mp.dm1.V = mp.dm1.V0 + dv_dm1
         mp.dm2.V = mp.dm2.V0 + dv_dm2
-        EFendB = compact(
-           mp, modvar, isNorm=True, isEvalMode=isEvalMode, useFPM=useFPM,
-           forRevGradModel=False)
-        # Reset DM commands
-        mp.dm1.V = mp.dm1.V0.copy()
-        mp.dm2.V = mp.dm2.V0.copy()
+        try:
+            EFendB = compact(
+               mp, modvar, isNorm=True, isEvalMode=isEvalMode, useFPM=useFPM,
+               forRevGradModel=False)
+        finally:
+            # Reset DM commands
+            mp.dm1.V = mp.dm1.V0.copy()
+            mp.dm2.V = mp.dm2.V0.copy()
 
         # Compute the delta E-field from the latest commands (model new - model old).
         dEend = EFendB - EFendA
-- 
2.43.0


From 8dac53024e85a7e3950cb97a4dc6ccc27aba45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 14/44] fix: parallel grid search keeps the image of the best
 command

---
 falco/ctrl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 9ac768f..f024817 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -352,6 +352,7 @@ def _grid_search_efc(mp, cvar):
         # Convert from a list to arrays:
         for ni in range(Nvals):
             InormVec[ni] = results_ctrl[ni][0]
+            ImCube[ni, :, :] = results_ctrl[ni][1].Itotal
             if any(mp.dm_ind == 1):
                 dDM1V_store[:, :, ni] = results_ctrl[ni][1].dDM1V
             if any(mp.dm_ind == 2):
-- 
2.43.0


From bd50a2f7af68c2f4ab739ec1a23d6b39337d0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 15/44] fix: WFSC loop and model-based images work with
 controlled Zernike modes

The estimate has one column per Jacobian mode, not per subband.
---
 falco/imaging.py | 6 +++++-
 falco/plot.py    | 6 +++++-
 falco/setup.py   | 8 ++++----
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 09a6887..fbe03a5 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -589,7 +589,11 @@ def get_expected_summed_image(mp, cvar, dDM):
 
     # Compute the expected new 2-D intensity image
     for si in range(mp.Nsbp):
-        EexpectedVec = cvar.Eest[:, si] + \
+        # Index of the unaberrated mode of the first star in this subband
+        iMode = np.nonzero((mp.jac.sbp_inds == si) &
+                           (mp.jac.zern_inds == 1) &
+                           (mp.jac.star_inds == 0))[0][0]
+        EexpectedVec = cvar.Eest[:, iMode] + \
             (EnewTempVecArray[:, si] - EoldTempVecArray[:, si])
         Eexpected2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         Eexpected2D[mp.Fend.corr.maskBool] = EexpectedVec
diff --git a/falco/plot.py b/falco/plot.py
index c9b52b2..2e25bd6 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -187,7 +187,11 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
 
     """
     for iSubband in range(mp.Nsbp):
-        dEmeas = np.squeeze(Eest[:, iSubband] - EestPrev[:, iSubband])
+        # Index of the unaberrated mode of the first star in this subband
+        iMode = np.nonzero((mp.jac.sbp_inds == iSubband) &
+                           (mp.jac.zern_inds == 1) &
+                           (mp.jac.star_inds == 0))[0][0]
+        dEmeas = np.squeeze(Eest[:, iMode] - EestPrev[:, iMode])
         dEmeas2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         dEmeas2D[mp.Fend.corr.maskBool] = dEmeas  # 2-D for plotting
         indsNonzero = np.nonzero(dEmeas != 0)[0]
diff --git a/falco/setup.py b/falco/setup.py
index a03b259..f688377 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1477,10 +1477,10 @@ def init_storage_arrays(mp):
 
     out.normIntMeasCorr = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in correction region of dark hole.
     out.normIntMeasScore = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in scoring region of dark hole.
-    out.normIntModCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in correction region of dark hole.
-    out.normIntModScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in scoring region of dark hole.
-    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
-    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntModCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in correction region of dark hole.
+    out.normIntModScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in scoring region of dark hole.
+    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
 
     # Storage array for throughput at each iteration
     out.thput = np.zeros(mp.Nitr + 1)
-- 
2.43.0


From 326c42564da30e3ec5d1c4e7bacef95e25e8bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 16/44] fix: Jacobian covers all actuators when the scheduled
 set of DMs changes

The set of actuators was reset only after computing the Jacobian, so a
scheduled change of DMs crashed or mismatched columns and actuators.
---
 falco/ctrl.py | 40 ++++++++++++++++++++++++++++++++--------
 falco/wfsc.py |  7 +++++--
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index f024817..0f26473 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -127,9 +127,12 @@ def wrapper(mp, cvar, jacStruct):
     return None
 
 
-def cull_weak_actuators(mp, cvar, jacStruct):
+def include_all_actuators(mp, cvar):
     """
-    Remove weak actuators from the controlled set.
+    Include all actuators again when the set of used DMs changes.
+
+    To be called before computing the control Jacobian from which
+    cull_weak_actuators() then removes the weak actuators.
 
     Parameters
     ----------
@@ -137,17 +140,12 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         Structure containing optical model parameters
     cvar : ModelParameters
         Structure containing controller variables
-    jacStruct : ModelParameters
-        Structure containing control Jacobians for each specified DM.
 
     Returns
     -------
     None
-        Changes are made by reference to mp and jacStruct.
+        Changes are made by reference to mp and cvar.
     """
-    if type(mp) is not falco.config.ModelParameters:
-        raise TypeError('Input "mp" must be of type ModelParameters')
-
     if cvar.Itr == 0:  # Cull in first iteration
         cvar.flagCullAct = True
     else:  # Cull when actuators used change
@@ -192,6 +190,32 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         else:
             mp.dm9.Nele = 0
 
+    return None
+
+
+def cull_weak_actuators(mp, cvar, jacStruct):
+    """
+    Remove weak actuators from the controlled set.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+    cvar : ModelParameters
+        Structure containing controller variables
+    jacStruct : ModelParameters
+        Structure containing control Jacobians for each specified DM.
+
+    Returns
+    -------
+    None
+        Changes are made by reference to mp and jacStruct.
+    """
+    if type(mp) is not falco.config.ModelParameters:
+        raise TypeError('Input "mp" must be of type ModelParameters')
+
+    include_all_actuators(mp, cvar)
+
     # Reduce the number of actuators used based on their relative strength
     # in the Jacobian
     if cvar.flagCullAct and cvar.flagRelin:
diff --git a/falco/wfsc.py b/falco/wfsc.py
index cae6fc2..bb941ac 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -75,8 +75,11 @@ def loop(mp, out):
             # Re-compute the Jacobian weights
             falco.setup.falco_set_jacobian_modal_weights(mp)
     
-            # Compute the control Jacobians for each DM
-            cvar.flagRelin = np.any(mp.relinItrVec == Itr) or Itr == 0
+            # Compute the control Jacobians for each DM. A change of the set of
+            # used DMs also needs a new Jacobian, for all of their actuators.
+            falco.ctrl.include_all_actuators(mp, cvar)
+            cvar.flagRelin = (np.any(mp.relinItrVec == Itr) or Itr == 0
+                              or cvar.flagCullAct)
             if cvar.flagRelin:
                 jacStruct = falco.model.jacobian(mp)
 
-- 
2.43.0


From 2666c99bb92ad4828cfa6f82437ebf5407c996e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 17/44] fix: spatial weights are applied once to a Jacobian
 that is used again

---
 falco/ctrl.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 0f26473..56feab1 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1071,6 +1071,12 @@ def apply_spatial_weighting_to_Jacobian(mp, jacStruct):
     None.
 
     """
+    # Do not modify arrays that the caller may use again without the weights.
+    if np.any(mp.dm_ind == 1):
+        jacStruct.G1 = jacStruct.G1.copy()
+    if np.any(mp.dm_ind == 2):
+        jacStruct.G2 = jacStruct.G2.copy()
+
     for iStar in range(mp.compact.star.count):
 
         if np.any(mp.dm_ind == 1):
-- 
2.43.0


From d1ce0b48a2d092ff87f47c64e2f7e995f6f1c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 18/44] fix: storing intensities no longer rescales the
 incoherent estimate

---
 falco/wfsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index bb941ac..58317bf 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -345,7 +345,7 @@ def store_intensities(mp, out, ev, Itr):
 
     # Apply subband weights and then sum over subbands
     Iest = np.abs(ev.Eest)**2
-    Iinco = ev.IincoEst
+    Iinco = ev.IincoEst.copy()
     for iMode in range(mp.jac.Nmode):
         iSubband = mp.jac.sbp_inds[iMode]
         Iest[:, iMode] = mp.sbp_weights[iSubband] * Iest[:, iMode]
-- 
2.43.0


From fbc15617164a21111433ce94c36767f7c1899923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 19/44] fix: differentiable DM model keeps one model per pixel
 size

---
 falco/dm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index ad4b01d..ce57e78 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -103,7 +103,10 @@ def gen_surf_from_act(dm, dx, Nout):
             raise ValueError('invalid value of dm.orientation')
 
     if dm.useDifferentiableModel:
-        if not hasattr(dm, "differentiableModel"):  # or dm.differentiableModel.Nout!=Narray:
+        # The model object holds for one sampling only: keep one per sampling.
+        if not hasattr(dmIn, "differentiableModelDict"):
+            dmIn.differentiableModelDict = {}
+        if dx not in dmIn.differentiableModelDict:
             # Initialize the model object if this is the first time
             print("Initializing differentiable DM model.")
             if flagXYZ:
@@ -118,9 +121,11 @@ def gen_surf_from_act(dm, dx, Nout):
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
-            dmIn.differentiableModel = dm.differentiableModel  # reuse later
+            dmIn.differentiableModelDict[dx] = dm.differentiableModel
         else:
+            dm.differentiableModel = dmIn.differentiableModelDict[dx]
             dm.differentiableModel.update(heightMap)
+        dmIn.differentiableModel = dm.differentiableModel  # the latest used
             
         DMsurf = dm.differentiableModel.render(Nout=Nout,wfe=False)  # returns surface rather than wfe
         if (DMsurf.shape[0] != Nout) or (DMsurf.shape[1] != Nout):
-- 
2.43.0


From 82d2f5a55113a300fbf06adccc9a18a5391a1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 20/44] fix: chains of tied actuators get the same command

---
 falco/dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index ce57e78..ff5f254 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -953,7 +953,8 @@ def enforce_constraints(dm):
     # In each pair of tied actuators, assign the command for the first actuator to that of the 2nd actuator
     if (dm.tied.size > 0):
         Vflat = dm.V.flatten()
-        Vflat[dm.tied[:, 1]] = Vflat[dm.tied[:, 0]]
+        for ti in range(dm.tied.shape[0]):  # in order, for chains of pairs
+            Vflat[dm.tied[ti, 1]] = Vflat[dm.tied[ti, 0]]
         dm.V = Vflat.reshape(dm.V.shape)
 
     return dm
-- 
2.43.0


From 709ed159c4d6d13244ac1a4fc49194d4a16dd714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 21/44] fix: pinned actuators keep their value when the command
 exceeds a limit

---
 falco/dm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index ff5f254..a117367 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -925,13 +925,15 @@ def enforce_constraints(dm):
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
     biasVec = np.broadcast_to(dm.biasMap, dm.V.shape).flatten()
-    new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
+    isFree = np.ones(dm.V.size, dtype=bool)  # pinned actuators keep their value
+    isFree[np.asarray(dm.pinned).astype(int)] = False
+    new_inds = np.nonzero(isFree & (Vtotal.flatten() < dm.Vmin))[0]  # linear indices of new actuators breaking their bounds
     new_vals = dm.Vmin - biasVec[new_inds]  # the limits are on the total voltage
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
-    new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = np.nonzero(isFree & (Vtotal.flatten() > dm.Vmax))[0]  # linear indices of new actuators breaking their bounds
     new_vals = dm.Vmax - biasVec[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
-- 
2.43.0


From 5bcbbfb809545813fc496e3aa9a90850e817d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 22/44] fix: data snippet of a trial is replaced atomically

---
 falco/util.py | 36 ++++++++++++++++++++++++++++++++++++
 falco/wfsc.py |  4 ++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/falco/util.py b/falco/util.py
index 00fd321..bd0fa53 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -1,7 +1,10 @@
 """FALCO utilities."""
+import contextlib
 import itertools
 import math
+import os
 import time
+import uuid
 
 import numpy as np
 from scipy import fft
@@ -28,6 +31,39 @@ class TicToc(object):
         print('Elapsed: %s' % (time.time() - self.tstart))
 
 
+@contextlib.contextmanager
+def atomic_write(fn):
+    """
+    Open a file for writing in binary mode so that it is replaced atomically.
+
+    The data are written to a temporary file in the same directory, which is
+    renamed when complete. If the writing fails or is interrupted, then the
+    previous contents of the file (if any) are kept.
+
+    Parameters
+    ----------
+    fn : str
+        Name of the file to write.
+
+    Yields
+    ------
+    f : file object
+        File object to write to.
+    """
+    fn = os.path.realpath(fn)
+    fnTemp = '%s.%s.tmp' % (fn, uuid.uuid4().hex)
+    try:
+        with open(fnTemp, 'wb') as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(fnTemp, fn)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(fnTemp)
+        raise
+
+
 def angular_spectrum_transfer_function(samples, wvl, dx, z):
     "Compute the transfer function efficiently for angular spectrum propagation."
 
diff --git a/falco/wfsc.py b/falco/wfsc.py
index 58317bf..4eafbfc 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -169,7 +169,7 @@ def loop(mp, out):
         # Save just the 'out' object to a pickle file
         fnSnippet = os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl'))
         print('Saving data snippet to:\n\t%s  ...' % (fnSnippet), end='')
-        with open(fnSnippet, 'wb') as f:
+        with falco.util.atomic_write(fnSnippet) as f:
             pickle.dump(out, f)
         print('done.', end='\n\n')
 
@@ -195,7 +195,7 @@ def loop(mp, out):
     # Save just the 'out' object to a pickle file
     fnSnippet = os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl'))
     print('\nSaving data snippet to:\n\t%s...' % (fnSnippet), end='')
-    with open(fnSnippet, 'wb') as f:
+    with falco.util.atomic_write(fnSnippet) as f:
         pickle.dump(out, f)
     print('done.\n')
 
-- 
2.43.0


From a5f095a16595730a16479b370b748b32a9974da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 23/44] fix: workspace is saved at the end of a trial instead
 of crashing

---
 falco/wfsc.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 4eafbfc..8d798b6 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -201,11 +201,6 @@ def loop(mp, out):
 
     # Save out the data from the workspace
     if mp.flagSaveWS:
-        del cvar
-        del G
-        del h
-        del jacStruct
-
         # Don't bother saving the large 2-D, floating point maps.
         # (they take up too much space)
         mp.P1.full.mask = 1
@@ -228,14 +223,16 @@ def loop(mp, out):
 
         mp.dm1.compact.inf_datacube = 0
         mp.dm2.compact.inf_datacube = 0
-        mp.dm8.compact.inf_datacube = 0
-        mp.dm9.compact.inf_datacube = 0
+        if hasattr(mp.dm8, 'compact'):
+            mp.dm8.compact.inf_datacube = 0
+        if hasattr(mp.dm9, 'compact'):
+            mp.dm9.compact.inf_datacube = 0
         mp.dm8.inf_datacube = 0
         mp.dm9.inf_datacube = 0
 
-        fnAll = mp.path.ws + mp.runLabel + '_all.pkl'
+        fnAll = os.path.join(mp.path.ws, mp.runLabel + '_all.pkl')
         print('Saving entire workspace to file ' + fnAll + '...', end='')
-        with open(fnAll, 'wb') as f:
+        with falco.util.atomic_write(fnAll) as f:
             pickle.dump(mp, f)
 
         print('done.\n\n')
-- 
2.43.0


From f2440ba75c7ac28320c896c3f815bafbcde41f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 24/44] fix: lazy parameters can be evaluated in several
 threads at once

---
 falco/config/Eval.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/falco/config/Eval.py b/falco/config/Eval.py
index b2b10b3..40ce21d 100644
--- a/falco/config/Eval.py
+++ b/falco/config/Eval.py
@@ -1,5 +1,6 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 import copy
+import threading
 
 @dataclass
 class Eval:
@@ -26,23 +27,24 @@ class Eval:
     code: str
     "The injected code to be run lazily."
 
-    in_progress = False
+    in_progress: set = field(default_factory=set, init=False, repr=False, compare=False)
     """
-    Whether evaluation is currently in progress.
+    The threads in which evaluation is currently in progress.
     
     If a circular dependency happens, this variable is used to detect it.
     """
 
     def evaluate(self):
         """Runs the code."""
-        if self.in_progress:
+        thread = threading.get_ident()
+        if thread in self.in_progress:
             raise ValueError("Circular parameter evaluation dependency detected.")
 
-        self.in_progress = True
+        self.in_progress.add(thread)
         try:
             result = eval(self.code, self.globals, self.locals)
         finally:
-            self.in_progress = False
+            self.in_progress.discard(thread)
         return result
     
     def __deepcopy__(self, memo):
-- 
2.43.0


From 827cc0a1a31667ef604d3b424d435ff281d5fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 25/44] fix: parsing a YAML configuration does not affect other
 configurations

---
 falco/config/ModelParameters.py | 6 +++---
 falco/config/yaml_loader.py     | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/falco/config/ModelParameters.py b/falco/config/ModelParameters.py
index 3441450..7be5a13 100755
--- a/falco/config/ModelParameters.py
+++ b/falco/config/ModelParameters.py
@@ -1,5 +1,6 @@
 # import copy
 import math
+from collections import ChainMap
 from pathlib import Path
 
 import numpy
@@ -245,9 +246,8 @@ class ModelParameters(Object):
 
         result = ModelParameters()
 
-        if context is None:
-            context = {}
-        context['mp'] = result
+        # The context belongs to the caller, who may use it for several objects
+        context = ChainMap({'mp': result}, {} if context is None else context)
 
         data = load_from_str(
             text,
diff --git a/falco/config/yaml_loader.py b/falco/config/yaml_loader.py
index 9c971a3..acb898e 100644
--- a/falco/config/yaml_loader.py
+++ b/falco/config/yaml_loader.py
@@ -38,7 +38,9 @@ def _eval_constructor(eval_globals, eval_locals):
 
 def _get_loader(eval_globals, eval_locals, ctors_dict):
     """Add constructors to PyYAML loader."""
-    loader = yaml.SafeLoader
+    class loader(yaml.SafeLoader):
+        """Private to this call, as the constructors depend on its arguments."""
+
     loader.add_constructor(u'tag:yaml.org,2002:map', object_constructor(Object))
     loader.add_constructor("!eval", _eval_constructor(eval_globals, eval_locals))
 
-- 
2.43.0


From 04670e51dbd9cfb6ac9132dd169fc399451d86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 26/44] fix: models with lazy parameters can be pickled for
 workers and workspaces

---
 falco/config/Eval.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/falco/config/Eval.py b/falco/config/Eval.py
index 40ce21d..3f0be7a 100644
--- a/falco/config/Eval.py
+++ b/falco/config/Eval.py
@@ -1,5 +1,7 @@
 from dataclasses import dataclass, field
 import copy
+import importlib
+import inspect
 import threading
 
 @dataclass
@@ -49,3 +51,19 @@ class Eval:
     
     def __deepcopy__(self, memo):
         return Eval(self.globals, copy.deepcopy(self.locals, memo), self.code)
+
+    def __getstate__(self):
+        # Modules cannot be pickled, so store their names
+        state = self.__dict__.copy()
+        state['in_progress'] = set()
+        state['globals'] = {key: value for key, value in self.globals.items()
+                            if not (inspect.ismodule(value) or key == '__builtins__')}
+        state['modules'] = {key: value.__name__ for key, value in self.globals.items()
+                            if inspect.ismodule(value) and key != '__builtins__'}
+        return state
+
+    def __setstate__(self, state):
+        modules = state.pop('modules')
+        self.__dict__.update(state)
+        for key, name in modules.items():
+            self.globals[key] = importlib.import_module(name)
-- 
2.43.0


From d45c75fa6533163d04368ef91b8f50190c0ff7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 27/44] fix: PROPER prescriptions get options of mp.full that
 were set via YAML

---
 falco/model/models.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index a67f6b5..57cf756 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -19,6 +19,14 @@ import logging
 log = logging.getLogger(__name__)
 
 
+def _get_prescription_options(mp):
+    """Get a dictionary of mp.full, including what was set via YAML."""
+    optval = {key: mp.full[key] for key in mp.full.data}
+    optval.update(vars(mp.full))
+
+    return optval
+
+
 def _copy_for_fpm(mp, whichModel):
     """Shallow copy of mp in which mp.F3.<whichModel> is safe to modify."""
     mp = copy.copy(mp)
@@ -144,7 +152,7 @@ def full(mp, modvar, isNorm=True):
 
     elif mp.layout.lower() == 'proper':
 
-        optval = copy.copy(vars(mp.full))
+        optval = _get_prescription_options(mp)
 
         if any(mp.dm_ind == 1):
             optval['use_dm1'] = True
@@ -173,7 +181,7 @@ def full(mp, modvar, isNorm=True):
         del optval
 
     elif mp.layout.lower() in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
-        optval = copy.copy(vars(mp.full))
+        optval = _get_prescription_options(mp)
         optval['use_dm1'] = True
         optval['use_dm2'] = True
         optval['dm1_m'] = mp.dm1.V*mp.dm1.VtoH + mp.full.dm1.flatmap
-- 
2.43.0


From 9702506db066e526a237decb09d2c812b952a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 28/44] fix: Jacobian of chains of tied actuators is that of
 moving them together

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 57cf756..27733e6 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1242,7 +1242,7 @@ def apply_ties_to_jac(mp, jacStruct):
     if any(mp.dm_ind == 1):
         # Update the sets of tied actuators
         mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
-        for ti in range(mp.dm1.tied.shape[0]):
+        for ti in reversed(range(mp.dm1.tied.shape[0])):  # reversed for chains of pairs
             Index1all = mp.dm1.tied[ti, 0]  # Index of first tied actuator in whole actuator set.
             Index2all = mp.dm1.tied[ti, 1]  # Index of second tied actuator in whole actuator set.
             Index1subset = np.nonzero(mp.dm1.act_ele == Index1all)[0]  # Index of first tied actuator in subset of used actuators. 
@@ -1252,7 +1252,7 @@ def apply_ties_to_jac(mp, jacStruct):
 
     if any(mp.dm_ind == 2):
         mp.dm2 = falco.dm.enforce_constraints(mp.dm2)  # Update the sets of tied actuators
-        for ti in range(mp.dm2.tied.shape[0]):
+        for ti in reversed(range(mp.dm2.tied.shape[0])):  # reversed for chains of pairs
             Index1all = mp.dm2.tied[ti, 0]  # Index of first tied actuator in whole actuator set. 
             Index2all = mp.dm2.tied[ti, 1]  # Index of second tied actuator in whole actuator set. 
             Index1subset = np.nonzero(mp.dm2.act_ele == Index1all)[0]  # Index of first tied actuator in subset of used actuators. 
-- 
2.43.0


From 147aea9b2780372bab57f5fe6cdd8b9f3f4ce943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 29/44] fix: Jacobian slices are written atomically

---
 falco/model/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 27733e6..3e96a40 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1296,7 +1296,8 @@ def write_jac_slices(fn_mp, combo_list):
             jac_slice = jacobians.vortex(mp, imode, idm, iact)
 
         fn_out = os.path.join(mp.path.jac, 'jac_mode%d_dm%d_act%d.npy' % (imode, idm, iact))
-        np.save(fn_out, jac_slice)
+        with falco.util.atomic_write(fn_out) as file:
+            np.save(file, jac_slice)
 
 
 def reassemble_jac_from_slices(mp):
-- 
2.43.0


From 9115b16b6c87ec3ef8a13be9961302bce8316992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 30/44] fix: Jacobian is reassembled from the slices of the
 active DMs

---
 falco/model/models.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 3e96a40..cb0b64e 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1312,13 +1312,15 @@ def reassemble_jac_from_slices(mp):
     # Reorder Jacobian by mode and DM from the list
     for imode in range(mp.jac.Nmode):
 
-        for index, iact in mp.dm1.act_ele:
-            fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
-            jacStruct.G1[:, index, imode] = np.load(fn_dm1)
+        if any(mp.dm_ind == 1):
+            for index, iact in enumerate(mp.dm1.act_ele):
+                fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
+                jacStruct.G1[:, index, imode] = np.load(fn_dm1)
 
-        for index, iact in mp.dm2.act_ele:
-            fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
-            jacStruct.G2[:, index, imode] = np.load(fn_dm2)
+        if any(mp.dm_ind == 2):
+            for index, iact in enumerate(mp.dm2.act_ele):
+                fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
+                jacStruct.G2[:, index, imode] = np.load(fn_dm2)
 
     # TIED ACTUATORS
     apply_ties_to_jac(mp, jacStruct)
-- 
2.43.0


From 26d9fadcda8df8ea67ae96389b6f888b61062f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 31/44] fix: saved PROPER states are restored and their files
 removed

---
 falco/proper/prop_end_savestate.py | 5 ++++-
 falco/proper/prop_state.py         | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/falco/proper/prop_end_savestate.py b/falco/proper/prop_end_savestate.py
index 3738d59..915c37e 100644
--- a/falco/proper/prop_end_savestate.py
+++ b/falco/proper/prop_end_savestate.py
@@ -31,7 +31,10 @@ def prop_end_savestate():
 
     statefile = proper.statefile
 
-    sfiles = glob('*' + statefile)
+    if statefile == "":    # never initialized, so there are no files
+        return
+
+    sfiles = glob('*' + statefile + '.npz')
     if len(sfiles) > 0:
         for sfile in sfiles:
             os.remove(sfile)
diff --git a/falco/proper/prop_state.py b/falco/proper/prop_state.py
index fcd75a2..53ef962 100644
--- a/falco/proper/prop_state.py
+++ b/falco/proper/prop_state.py
@@ -44,9 +44,9 @@ def prop_state(wf):
     proper.n = int(0)
     proper.first_pass = np.fix(0)
     
-    statedata = np.load(statefile_lam)
-    proper.total_original_pupil = statedata["total_original_pupil"]
-    wf = statedata["wf"].tolist()
+    with np.load(statefile_lam, allow_pickle=True) as statedata:
+        proper.total_original_pupil = statedata["total_original_pupil"].item()
+        vars(wf).update(vars(statedata["wf"].item()))
     proper.n = wf.wfarr.shape[0]
         
     return
-- 
2.43.0


From 3be6e9210d231377303ce5619bfde4a7dc2d417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 32/44] fix: PROPER states are saved atomically under a name
 that no other process uses

---
 falco/proper/prop_init_savestate.py | 5 ++++-
 falco/proper/prop_savestate.py      | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/falco/proper/prop_init_savestate.py b/falco/proper/prop_init_savestate.py
index d7a3034..15a96ff 100644
--- a/falco/proper/prop_init_savestate.py
+++ b/falco/proper/prop_init_savestate.py
@@ -8,6 +8,7 @@
 
 
 
+import os
 import falco.proper as proper
 from time import time
 
@@ -34,9 +35,11 @@ def prop_init_savestate():
     # that can return the same id number if two processes are started very
     # close to one another
 
+    # (neither can the time, so use the process number, too)
+
     num = time()
     num = int(num * 500000. - int(num) * 500000.)
 
-    proper.statefile = "_" + str(num).strip() + "_prop_savestate"
+    proper.statefile = "_" + str(os.getpid()) + "_" + str(num).strip() + "_prop_savestate"
 
     return
diff --git a/falco/proper/prop_savestate.py b/falco/proper/prop_savestate.py
index 3620343..f562776 100644
--- a/falco/proper/prop_savestate.py
+++ b/falco/proper/prop_savestate.py
@@ -10,6 +10,7 @@
 
 import falco.proper as proper
 import numpy as np
+from falco.util import atomic_write
 
 
 def prop_savestate(wf):
@@ -27,9 +28,10 @@ def prop_savestate(wf):
     if proper.save_state == False:
         return
         
-    statefile_lam = str(int(wf.lamda*1.e15)).strip() + proper.statefile
+    statefile_lam = str(int(wf.lamda*1.e15)).strip() + proper.statefile + '.npz'
     
-    np.savez(statefile_lam, total_original_pupil = proper.total_original_pupil, wf = wf)
+    with atomic_write(statefile_lam) as f:
+        np.savez(f, total_original_pupil = proper.total_original_pupil, wf = wf)
         
     proper.save_state_lam.append(wf.lamda)
     
-- 
2.43.0


From 35a5dc192b9e1dcaac05e7674d6af9fa3bc9ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 33/44] fix: mask functions leave PROPER's antialiasing as they
 found it

---
 falco/mask.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 16075a5..d98e9f7 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1,3 +1,4 @@
+import functools
 import numpy as np
 import math
 from numpy import cos, sin
@@ -10,6 +11,18 @@ from . import check
 from falco.util import ceil_even, cosd, sind
 
 
+def _keep_antialiasing(func):
+    """Decorate a function to leave PROPER's antialiasing as it found it."""
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        nsub = proper.antialias_subsampling
+        try:
+            return func(*args, **kwargs)
+        finally:
+            proper.prop_set_antialiasing(nsub)
+    return wrapper
+
+
 def _init_proper(Dmask, dx, centering):
     """Initialize PROPER for generating mask representations."""
     check.centering(centering)
@@ -64,6 +77,7 @@ def falco_gen_DM_stop(dx, diamMask, centering):
     return np.fft.ifftshift(np.abs(wf.wfarr))
 
 
+@_keep_antialiasing
 def falco_gen_pupil_Roman_CGI_20200513(Nbeam, centering, changes={}):
     """
     Generate WFIRST pupil CGI-20200513.
@@ -821,6 +835,7 @@ def falco_gen_annular_FPM(inputs):
     return gen_annular_fpm(inputs)
 
 
+@_keep_antialiasing
 def gen_annular_fpm(inputs):
     """
     Generate an annular FPM using PROPER.
@@ -1019,6 +1034,7 @@ def gen_bowtie_lyot_stop(inputs):
     return mask
 
 
+@_keep_antialiasing
 def falco_gen_pupil_LUVOIR_A_final(inputs):
     """
     Generate the LUVOIR Design A (Final) telescope pupil.
@@ -1154,6 +1170,7 @@ def falco_gen_pupil_LUVOIR_A_final(inputs):
     return mask
 
 
+@_keep_antialiasing
 def falco_gen_pupil_LUVOIR_B(inputs, **kwargs):
     """
     Generate the LUVOIR B telescope pupil.
@@ -1378,6 +1395,7 @@ def falco_hex_aperture_LUVOIR_B(wf, nrings, hexrad, hexsep, xc=0., yc=0.,
     return ap
 
 
+@_keep_antialiasing
 def falco_gen_pupil_Simple(inputs):
     """
     Generate a custom simple circular pupil with an ID, OD, and struts.
-- 
2.43.0


From 9c05bfe2bfdc1bd34b49a4b98b890899d8815812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 34/44] fix: worker processes are stopped when a parallel
 calculation fails

---
 falco/ctrl.py                  | 10 ++++------
 falco/proper/prop_run_multi.py |  6 ++----
 falco/zern.py                  | 18 +++++++-----------
 3 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 56feab1..0e8c752 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -358,13 +358,11 @@ def _grid_search_efc(mp, cvar):
         # pool.close()
         # pool.join()
 
-        pool = multiprocessing.Pool(processes=mp.Nthreads)
-        results = pool.starmap(
-            _efc, [(ni, vals_list, mp, cvar) for ni in range(Nvals)]
-        )
+        with multiprocessing.Pool(processes=mp.Nthreads) as pool:
+            results = pool.starmap(
+                _efc, [(ni, vals_list, mp, cvar) for ni in range(Nvals)]
+            )
         results_ctrl = results
-        pool.close()
-        pool.join()
 
         # with PoolExecutor(max_workers=mp.Nthreads) as executor:
         #     resultsRaw = executor.map(
diff --git a/falco/proper/prop_run_multi.py b/falco/proper/prop_run_multi.py
index 2d4fb1f..e6cb554 100644
--- a/falco/proper/prop_run_multi.py
+++ b/falco/proper/prop_run_multi.py
@@ -142,10 +142,8 @@ def prop_run_multi(routine_name, lamda0, gridsize, **kwargs):
     elif nel < ncpus:
         ncpus = nel
 
-    pool = mp.Pool(ncpus)
-    res = pool.map(proper.prop_execute_multi, params)
-    pool.close()
-    pool.join()
+    with mp.Pool(ncpus) as pool:
+        res = pool.map(proper.prop_execute_multi, params)
 
     ## May 1 2018 - Navtej - Bug report #5 and code snippet by Bryn Jeffries
     ## When NOABS in prop_end is False, only real part (intensity) is used.
diff --git a/falco/zern.py b/falco/zern.py
index dd5d67f..1e6f990 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -108,11 +108,9 @@ def calc_zern_sens(mp):
         # print(len(results))
         # print(results)
 
-        pool = multiprocessing.Pool(processes=mp.Nthreads)
-        results = pool.starmap(falco_get_single_sim_Efield_LamPol,
-                               [(iv, inds_list, mp) for iv in range(Nvals)])
-        pool.close()
-        pool.join()
+        with multiprocessing.Pool(processes=mp.Nthreads) as pool:
+            results = pool.starmap(falco_get_single_sim_Efield_LamPol,
+                                   [(iv, inds_list, mp) for iv in range(Nvals)])
         print(len(results))
 
         # with PoolExecutor(max_workers=mp.Nthreads) as executor:
@@ -159,12 +157,10 @@ def calc_zern_sens(mp):
         # pool.close()
         # pool.join()
 
-        pool = multiprocessing.Pool(processes=mp.Nthreads)
-        results = pool.starmap(falco_get_single_sim_Efield_LamPolZern,
-                               [(iv, inds_list_zern, mp)
-                                for iv in range(NvalsZern)])
-        pool.close()
-        pool.join()
+        with multiprocessing.Pool(processes=mp.Nthreads) as pool:
+            results = pool.starmap(falco_get_single_sim_Efield_LamPolZern,
+                                   [(iv, inds_list_zern, mp)
+                                    for iv in range(NvalsZern)])
 
         # a = np.array(results)
         # from astropy.io import fits
-- 
2.43.0


From 7c34940908e91d3a0e9d741101a9348d7cbcca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 35/44] fix: amplitude maps can be applied by prop_errormap

---
 falco/proper/prop_errormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_errormap.py b/falco/proper/prop_errormap.py
index bc2e502..359dfad 100644
--- a/falco/proper/prop_errormap.py
+++ b/falco/proper/prop_errormap.py
@@ -89,7 +89,7 @@ def prop_errormap(wf, filename, xshift = 0., yshift = 0., **kwargs):
         If map type is MIRROR_SURFACE, WAVEFRONT, or AMPLITUDE.
     """
 
-    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper_switch_set("MICRONS",**kwargs)):
+    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper.switch_set("MICRONS",**kwargs)):
         raise SystemExit("ERRORMAP: Cannot specify NM or MICRON for an amplitude map")
     
     if proper.switch_set("NM",**kwargs) and proper.switch_set("MICRONS",**kwargs):
-- 
2.43.0


From dc3603d8ab4f02d52e5aa1313f278c9e3c814f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 36/44] fix: FITS files and maps are replaced atomically

---
 falco/proper/prop_fits_write.py |  8 +++-----
 falco/proper/prop_writemap.py   |  4 +++-
 falco/util.py                   | 31 +++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/falco/proper/prop_fits_write.py b/falco/proper/prop_fits_write.py
index 3cc9109..c252e4d 100644
--- a/falco/proper/prop_fits_write.py
+++ b/falco/proper/prop_fits_write.py
@@ -9,9 +9,9 @@
 #   Modified by J. Krist - 19 April 2019: switched to astropy.io.fits and
 #   allow file overwrite
 
-import os
 import astropy.io.fits as pyfits
 import falco.proper as proper
+from falco.util import atomic_path
 
 
 def prop_fits_write(fname, img, **kwargs):
@@ -40,11 +40,9 @@ def prop_fits_write(fname, img, **kwargs):
         for key,value in kwargs["HEADER"].items():
             hdu.header.set(key, value[0], value[1])
 
-    if os.path.isfile(fname):
-        os.remove(fname)
-
     try:
-        hdu.writeto(fname, overwrite=True)
+        with atomic_path(fname) as fnTemp:
+            hdu.writeto(fnTemp)
     except IOError:
         raise IOError('Unable to write FITS image %s. Stopping.' %fname)
 
diff --git a/falco/proper/prop_writemap.py b/falco/proper/prop_writemap.py
index 5d9ed71..6e20570 100644
--- a/falco/proper/prop_writemap.py
+++ b/falco/proper/prop_writemap.py
@@ -11,6 +11,7 @@
 
 import astropy.io.fits as pyfits
 import falco.proper as proper
+from falco.util import atomic_path
 
 def prop_writemap(dmap, filename, **kwargs):
     """Write an aberration (phase or amplitude) map to a FITS file.
@@ -76,6 +77,7 @@ def prop_writemap(dmap, filename, **kwargs):
     hdu.header.set("XC_PIX", nx//2, " Center X pixel coordinate")
     hdu.header.set("YC_PIX", ny//2, " Center Y pixel coordinate")
     hdu.data = dmap
-    hdu.writeto( filename, overwrite=True )
+    with atomic_path(filename) as fnTemp:
+        hdu.writeto(fnTemp)
 
     return
diff --git a/falco/util.py b/falco/util.py
index bd0fa53..c023a6b 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -31,6 +31,37 @@ class TicToc(object):
         print('Elapsed: %s' % (time.time() - self.tstart))
 
 
+@contextlib.contextmanager
+def atomic_path(fn):
+    """
+    Write a file by name so that it is replaced atomically.
+
+    The same as atomic_write, but for code that opens the file itself.
+
+    Parameters
+    ----------
+    fn : str
+        Name of the file to write.
+
+    Yields
+    ------
+    fnTemp : str
+        Name of the temporary file to write, which has the same extension.
+    """
+    fn = os.path.realpath(fn)
+    root, ext = os.path.splitext(fn)
+    fnTemp = '%s.%s.tmp%s' % (root, uuid.uuid4().hex, ext)
+    try:
+        yield fnTemp
+        with open(fnTemp, 'rb+') as f:
+            os.fsync(f.fileno())
+        os.replace(fnTemp, fn)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(fnTemp)
+        raise
+
+
 @contextlib.contextmanager
 def atomic_write(fn):
     """
-- 
2.43.0


From 13bafa01b8896c54fea784f6784b91a1ebf6df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 37/44] fix: bowtie FPMs set the antialiasing they are made
 with

---
 falco/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index d98e9f7..49db3f2 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -726,6 +726,7 @@ def falco_gen_bowtie_FPM(inputs):
     return gen_bowtie_fpm(inputs)
 
 
+@_keep_antialiasing
 def gen_bowtie_fpm(inputs):
     """
     Generate a bowtie FPM using PROPER.
@@ -778,6 +779,7 @@ def gen_bowtie_fpm(inputs):
 
     # INITIALIZE PROPER. Note that:  bm.dx = diam / bdf / np;
     wf = proper.prop_begin(Dmask, wl_dummy, Narray, bdf)
+    proper.prop_set_antialiasing(101)
 
     # Outer opaque ring of FPM
     cx_OD = 0 + cshift + xOffset
-- 
2.43.0


From d71f77c6fe68a28b012f576d1eaa0fc685821d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 38/44] fix: thin-film tables are kept per exact inputs and
 written atomically

---
 falco/thinfilm.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index d0d0cfd..55e35f9 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -1,4 +1,5 @@
 """Module for thin film functions to make complex-valued HLC occulters."""
+import hashlib
 import numpy as np
 from os.path import isfile
 import os
@@ -7,6 +8,7 @@ from falco.check import real_scalar, real_positive_scalar,\
                             real_nonnegative_scalar, scalar_integer,\
                             positive_scalar_integer, real_array,\
                             oneD_array, twoD_array, twoD_square_array
+from falco.util import atomic_write
 
 
 def calc_complex_occulter(substrate, metal, dielectric, lam, aoi, t_Ti,
@@ -422,6 +424,15 @@ def solver(n, d0, theta, lam, tetm=False):
     return [R, T, rr, tt]
 
 
+def _hash_inputs(mp, lambdas):
+    """Tell apart the inputs that are the same when rounded in a file name."""
+    h = hashlib.sha256()
+    for x in (lambdas, mp.F3.d0fac, mp.aoi, mp.t_Ti_nm, mp.t_metal_nm_vec,
+              mp.t_diel_nm_vec):
+        h.update(repr(np.asarray(x, dtype=float).tolist()).encode())
+    return h.hexdigest()[:16]
+
+
 def gen_complex_trans_table(mp, flagRefl=False):
     """
     Calculate 3-D look-up table for thin film transmission data.
@@ -448,18 +459,21 @@ def gen_complex_trans_table(mp, flagRefl=False):
     # mp.F3.metal = 'Ni'
     # mp.F3.diel = 'PMGI'
 
-    fn_compact = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1fN%d_%.1fdeg_compact.npy' %
+    lambdasFull = mp.sbp_centers if mp.Nwpsbp == 1 else mp.full.lambdas
+
+    fn_compact = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1fN%d_%.1fdeg_%s_compact.npy' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec),
          np.max(mp.t_metal_nm_vec), mp.dt_metal_nm, mp.F3.dielectric,
          np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec), mp.dt_diel_nm,
-         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi))
+         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi,
+         _hash_inputs(mp, mp.sbp_centers)))
     fn_cube_compact = os.path.join(localpath, 'data', 'material', fn_compact)
 
-    fn_full = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1f_%dN%d_%.1fdeg_full.npy' %
+    fn_full = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1f_%dN%d_%.1fdeg_%s_full.npy' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec), np.max(mp.t_metal_nm_vec), mp.dt_metal_nm,
          mp.F3.dielectric, np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec),
          mp.dt_diel_nm, (1e9*mp.lambda0), 100*mp.fracBW, mp.Nsbp, mp.Nwpsbp,
-         mp.aoi))
+         mp.aoi, _hash_inputs(mp, lambdasFull)))
     fn_cube_full = os.path.join(localpath, 'data', 'material', fn_full)
 
     if flagRefl:
@@ -504,7 +518,8 @@ def gen_complex_trans_table(mp, flagRefl=False):
             print('\tDone computing wavelength %d of %d.\n' % (si, Nsbp))
 
         # Save out for future use
-        np.save(fn_cube_compact, complexTransCompact)
+        with atomic_write(fn_cube_compact) as f:
+            np.save(f, complexTransCompact)
         print('Saved complex transmission datacube: %s' % fn_cube_compact)
         pass
 
@@ -541,7 +556,8 @@ def gen_complex_trans_table(mp, flagRefl=False):
                       (li, len(lambdas)))
 
         # Save out for future use
-        np.save(fn_cube_full, complexTransFull)
+        with atomic_write(fn_cube_full) as f:
+            np.save(f, complexTransFull)
         print('Saved complex transmission datacube: %s\n' % fn_cube_full)
 
     return complexTransCompact, complexTransFull
-- 
2.43.0


From d0e1134e228b91d99cf896b748b2d7fe3b475fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:41 +0000
Subject: [PATCH 39/44] fix: probing with DM2 works when the DMs have different
 numbers of actuators

---
 falco/est.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index f395826..005c381 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -531,7 +531,10 @@ def _pairwise_probing(mp, ev, jacStruct):
             ev.iStar = iStar
             dDMVplus = np.zeros_like(DM1Vplus)
             for ii in range(Npairs):
-                dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                if whichDM == 1:
+                    dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                elif whichDM == 2:
+                    dDMVplus[:, :, ii] = DM2Vplus[:, :, ii] - DM2Vnom
             falco.plot.pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband)
 
             # ################# Perform the estimation #######################
-- 
2.43.0


From ab2724a96f88f078e61f4bbfbd1e3803b1223f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:41 +0000
Subject: [PATCH 40/44] fix: the perfect estimator leaves the polarization
 state of the model as it was

---
 falco/est.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 005c381..229e0f4 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -68,16 +68,17 @@ def perfect(mp, ev):
         raise TypeError('Input "mp" must be of type ModelParameters')
 
     # Polarization states as defined in the WFIRST or Roman PROPER models
-    # Use the average polarization state for the perfect estimation.
+    # Use the average polarization state for the perfect estimation (in a copy
+    # of mp, because other evaluations use their own polarization state).
     if hasattr(mp.full, 'pol_conds'):
         if set(mp.full.pol_conds) in ({-2, -1, 1, 2}, {10}):  # X and Y out
-            mp.full.polaxis = 10
+            mp = falco.imaging._copy_with_polaxis(mp, 10)
         elif set(mp.full.pol_conds) in ({-1, 1}, {5}):  # X out
-            mp.full.polaxis = 5
+            mp = falco.imaging._copy_with_polaxis(mp, 5)
         elif set(mp.full.pol_conds) in ({-2, 2}, {6}):  # Y out
-            mp.full.polaxis = 6
+            mp = falco.imaging._copy_with_polaxis(mp, 6)
         elif set(mp.full.pol_conds) == {0}:  # Y out
-            mp.full.polaxis = 0
+            mp = falco.imaging._copy_with_polaxis(mp, 0)
         else:
             raise ValueError('Invalid value of mp.full.pol_conds.')
 
-- 
2.43.0


From 4702869760c1537d203180ee045f9d4d0daa5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 41/44] fix: the singular-mode spectrum needed Jacobians of DMs
 that are not there

---
 falco/plot.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index 2e25bd6..0bb9afd 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -244,21 +244,16 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
 
 def singular_mode_spectrum_of_Efield(mp, out, jacStruct, Eest, Itr):
 
-    iMode = 0
-    Gcomplex = np.concatenate((jacStruct.G1[:, :, iMode],
-                               jacStruct.G2[:, :, iMode],
-                               jacStruct.G8[:, :, iMode],
-                               jacStruct.G9[:, :, iMode]), axis=1)
-    Gall = np.zeros((mp.jac.Nmode*Gcomplex.shape[0], Gcomplex.shape[1]),
+    # Jacobians of all the DMs that have one
+    Glist = [getattr(jacStruct, 'G%d' % idm) for idm in (1, 2, 8, 9)
+             if hasattr(jacStruct, 'G%d' % idm)]
+    N = Glist[0].shape[0]
+    Gall = np.zeros((mp.jac.Nmode*N, sum(G.shape[1] for G in Glist)),
                     dtype=complex)
     Eall = np.zeros((mp.jac.Nmode*Eest.shape[0], 1), dtype=complex)
 
     for iMode in range(mp.jac.Nmode):
-        N = Gcomplex.shape[0]
-        Gcomplex = np.concatenate((jacStruct.G1[:, :, iMode],
-                                   jacStruct.G2[:, :, iMode],
-                                   jacStruct.G8[:, :, iMode],
-                                   jacStruct.G9[:, :, iMode]), axis=1)
+        Gcomplex = np.concatenate([G[:, :, iMode] for G in Glist], axis=1)
         Gall[iMode*N:(iMode+1)*N, :] = Gcomplex
         Eall[iMode*N:(iMode+1)*N, 0] = Eest[:, iMode]
 
-- 
2.43.0


From 3ee1d63d2c473255ab00cbdd6d6c965bf5e34230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 42/44] fix: the y shift of an error map was ignored, its x
 shift applied to both axes

---
 falco/proper/prop_resamplemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_resamplemap.py b/falco/proper/prop_resamplemap.py
index 8369f27..b95c982 100644
--- a/falco/proper/prop_resamplemap.py
+++ b/falco/proper/prop_resamplemap.py
@@ -63,7 +63,7 @@ def prop_resamplemap(wf, dmap, pixscale, xc, yc, xshift = 0., yshift = 0.):
     
     y = np.arange(n, dtype = np.float64) - int(n/2)
     y = y * proper.prop_get_sampling(wf) / pixscale
-    y += yc - xshift/pixscale
+    y += yc - yshift/pixscale
 
     if proper.use_cubic_conv:
         dmap = proper.prop_cubic_conv(dmap.T, x, y, GRID=True)
-- 
2.43.0


From b2fd63aab56e37ddbafbe955d5bd1db4d5573878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:56 +0000
Subject: [PATCH 43/44] fix: error maps that are not square were applied
 off-centre

---
 falco/proper/prop_readmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_readmap.py b/falco/proper/prop_readmap.py
index 88815f6..33e2d30 100644
--- a/falco/proper/prop_readmap.py
+++ b/falco/proper/prop_readmap.py
@@ -75,8 +75,8 @@ def prop_readmap(wf, filename, xshift = 0, yshift = 0, **kwargs):
     
     if not "XC_MAP" in kwargs:
         s = dmap.shape
-        xc = s[0]//2
-        yc = s[1]//2
+        xc = s[1]//2
+        yc = s[0]//2
     else:
         xc = kwargs["XC_MAP"]
         yc = kwargs["YC_MAP"]
-- 
2.43.0


From 681c5143e243766b45bb424fae12f93d55c9add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 44/44] fix: plotting probed images changed the recorded ones

The log-scaled plots of the probe images set the negative pixels of
ev.imageArray to zero, because they worked on a view of it.
---
 falco/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index 0bb9afd..f0c1bd7 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -345,5 +345,5 @@ def pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband):
 
 
 def log10nonneg(array):
-    array[array < 0] = 0
-    return np.log10(array)
+    # In a copy, because the input can be a view of the recorded images
+    return np.log10(np.where(array < 0, 0, array))
-- 
2.43.0

