From fac68c7294feeaa5e05e5e8d65e29cb92253a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 01/53] fix: use int/float/np.nan instead of aliases removed
 from numpy

---
 misfit/fit/fit_core.py         |  6 ++---
 misfit/fit/fit_io.py           |  2 +-
 misfit/general/galaxy_utils.py | 46 +++++++++++++++++-----------------
 misfit/model/aper_model.py     |  2 +-
 misfit/model/kin_functions.py  |  2 +-
 misfit/plot/plot_bestfit.py    |  2 +-
 misfit/plot/plot_image_slit.py |  8 +++---
 misfit/plot/plot_trace.py      |  4 +--
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1d3016f..fbc399f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -195,7 +195,7 @@ def run_mcmc(fitEmis2D, fitEmis2D_fit=None):
         and then delete attributes
     """
     print("fitting with emcee version: {}".format(emcee.__version__))
-    if np.int(emcee.__version__[0]) >= 3:
+    if int(emcee.__version__[0]) >= 3:
         fitEmis2D = _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
     else:
         fitEmis2D = _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
@@ -216,7 +216,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
@@ -515,7 +515,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c73ba99..f95a45e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -50,7 +50,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
         except:
-            acor_time = np.NaN
+            acor_time = np.nan
 
     try:
         nDim = sampler.ndim
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0c95bcd..1669209 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -891,7 +891,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                             args=(xx, sp_arr, err_arr))
 
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         if (m0 > (len(snr_arr) -1)):
             m0_closest = len(snr_arr) -1
         elif (m0 < 0):
@@ -902,8 +902,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0_closest]
         if dither:
-            m1 = np.int(np.round(result.params['mu_l'].value))
-            m2 = np.int(np.round(result.params['mu_r'].value))
+            m1 = int(np.round(result.params['mu_l'].value))
+            m2 = int(np.round(result.params['mu_r'].value))
 
         if debug:
             print(ypos)
@@ -931,9 +931,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             sp_ind_neg2 = m2
 
             diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-            cut = np.int(np.ceil(diff/2.))
+            cut = int(np.ceil(diff/2.))
         else:
-            cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+            cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
         m_min = m0 - cut
         m_max = m0 + cut
@@ -950,7 +950,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("m0, ypos=", m0, ypos)
 
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
 
                 params = lmfit.Parameters()
 
@@ -974,7 +974,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                 args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value))
+                m0 = int(np.round(result.params['mu'].value))
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -984,8 +984,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value - m0
                 m0_peak_snr = snr_arr[m0_closest]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value))
-                    m2 = np.int(np.round(result.params['mu_r'].value))
+                    m1 = int(np.round(result.params['mu_l'].value))
+                    m2 = int(np.round(result.params['mu_r'].value))
 
                 if debug:
                     print(ypos)
@@ -1010,9 +1010,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
 
                 m_min = m0 - cut
@@ -1071,7 +1071,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                     args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value)) + trimval
+                m0 = int(np.round(result.params['mu'].value)) + trimval
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -1081,8 +1081,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value + trimval - m0
                 m0_peak_snr = snr_arr[m0_closest-trimval]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                    m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                    m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                    m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
                 if debug:
                     print(ypos)
@@ -1105,9 +1105,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
                 m_min = m0 - cut
                 m_max = m0 + cut
@@ -1147,12 +1147,12 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 result = lmfit.minimize(utils.gaus_residual, params,
                             args=(xx, sp_arr, err_arr))
 
-            m0 = np.int(np.round(result.params['mu'].value)) + trimval
+            m0 = int(np.round(result.params['mu'].value)) + trimval
             m0_shift_fit = result.params['mu'].value + trimval - m0
             m0_peak_snr = snr_arr[m0-trimval]
             if dither:
-                m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
             if debug:
                 print(ypos            )
@@ -1175,9 +1175,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 sp_ind_neg2 = m2
 
                 diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                cut = np.int(np.ceil(diff/2.))
+                cut = int(np.ceil(diff/2.))
             else:
-                cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
             m_min = m0 - cut
             m_max = m0 + cut
@@ -1195,7 +1195,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         result = lmfit.minimize(utils.gaus_residual, params,
                         args=(xx, sp_arr, err_arr))
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0]
 
@@ -1225,7 +1225,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         if ypos is not None:
             if ((np.abs(ypos-m0) > 2.) & (not skip_check)):
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
                 m0_shift_fit = ypos - m0
                 m0_peak_snr = snr_arr[m0]
 
diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e36093b..09574f2 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -750,7 +750,7 @@ class AperModel2D(object):
     def check_do_upsample_wave(self):
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
             # Create new array that has finer sampling:
-            self.delt_wave = self.delt_wave_real / np.float(self.adaptive_upsample_factor)
+            self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
             nwmin = self.wave_arr.min() - 0.5*(self.delt_wave_real - self.delt_wave)
             nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5dbb9d1..9c2cd50 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -290,7 +290,7 @@ def check_slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_widt
     if modified_bounds:
         # Determine the new mu:
         model = A_tmp*gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
-        model_mask = np.zeros(len(xarr))*np.NaN
+        model_mask = np.zeros(len(xarr))*np.nan
         model_mask[wh_in_slit_x] = 1.
         model_orig = model.copy()
         model *= model_mask
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index c264bfd..e5ded5f 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -56,7 +56,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     
     """
     sh_spec_trim = np.shape(fitEmis2D.galaxy.spec2D.flux)
-    sp_rat = sh_spec_trim[1]/np.float(sh_spec_trim[0])  # width/height
+    sp_rat = sh_spec_trim[1]/float(sh_spec_trim[0])  # width/height
 
 
     fig = plt.figure()
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index d1c7803..0fd1f63 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -163,7 +163,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         yarc_orig = yarr_orig*instrument_img.pixscale
 
         # Output pix/arc array:
-        n_round = np.int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
+        n_round = int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
 
         ### New:
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
@@ -250,8 +250,8 @@ def plot_image_slit(galaxy=None, instrument=None,
 
     #######################################
     # Scale based on noise levels:
-    xlim_round = np.array([np.int(np.round(xlim[0])), np.int(np.round(xlim[1]))])
-    ylim_round = np.array([np.int(np.round(ylim[0])), np.int(np.round(ylim[1]))])
+    xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
+    ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
@@ -259,7 +259,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     range_spec = np.abs(range_spec)
     range_spec.sort()
     # Only consider the lowest 50\% *abs* points:
-    range_spec = range_spec[0:np.int(np.ceil(len(range_spec)/2.))]
+    range_spec = range_spec[0:int(np.ceil(len(range_spec)/2.))]
     median_err = np.median(range_spec)
 
     ext = 3.
diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 1fe2433..6838f2c 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -45,7 +45,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     nWalkers = sampler_dict['nWalkers']
 
-    alpha = max(0.01, 1./np.float(nWalkers))
+    alpha = max(0.01, 1./float(nWalkers))
 
 
     # Define random color inds for tracking some walkers:
@@ -56,7 +56,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
     trace_inds = np.random.randint(0,nWalkers, size=nTraceWalkers)
     trace_colors = []
     for i in range(nTraceWalkers):
-        trace_colors.append(cmap(1./np.float(nTraceWalkers)*i))
+        trace_colors.append(cmap(1./float(nTraceWalkers)*i))
 
     norm_inds = np.setdiff1d(range(nWalkers), trace_inds)
 
-- 
2.43.0


From f802efd6908653cf16bb415b279ab4dfb0ccd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 02/53] fix: FitEmissionLines1D.fit raised after computing its
 errors

---
 misfit/fit/fit1D.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 41b622d..ca56062 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -506,8 +506,6 @@ class FitEmissionLines1D(object):
             self.cont_coeff_err =   \
                 values_err[len(self.names_arr)+2:len(self.names_arr)+2+self.cont_order+1,:]
 
-            raise ValueError
-
         else:
             print( "Not doing errors")
             self.z_err =            np.zeros(2)
-- 
2.43.0


From 54fe71d94fce91b40f71348fcf09c2f0d25a436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 03/53] fix: FitEmissionLines1D.fit plotted with pyplot never
 imported

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index ca56062..9458d13 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -385,7 +385,7 @@ class FitEmissionLines1D(object):
             # #mpl.use('Agg')
             # mpl.rcParams['text.usetex'] = True #False
             #
-            # import matplotlib.pyplot as plt
+            import matplotlib.pyplot as plt
 
             if plot_filename is None:
                 raise ValueError("Must set plot_filename")
-- 
2.43.0


From 2223f44f6626444a4fabef256775b7075d0d2576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 04/53] fix: 1D instrument-corrected dispersion errors use the
 instrument's resolution

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 9458d13..bc31040 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -612,7 +612,7 @@ class FitEmissionLines1D(object):
 
             # Correct all in value matrix
             vel_disp_mc = value_matrix[:,1]
-            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.galaxy.spec1D.instrument_resolution**2)
+            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)
 
             # Make non-finite cases: these are where inst res > vel disp
             vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
-- 
2.43.0


From 4db72713b1d45bea087a4d367942e3fbe27442cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 05/53] fix: 1D fits of line sets of different sizes failed on
 a ragged array

---
 misfit/fit/fit1D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index bc31040..1a92a7a 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -181,7 +181,8 @@ class FitEmissionLines1D(object):
                     wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 waves_arr.append(wave_arr)
 
-            self.restwave_arr = np.array(waves_arr)
+            # Sets can hold different numbers of lines, so keep this as a list of lists
+            self.restwave_arr = waves_arr
 
     def setup_spectrum(self):
         """
-- 
2.43.0


From 8220d717318fbfdec656995f7828482e3b69402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 06/53] fix: close the Monte Carlo matrix file after saving and
 loading it

---
 misfit/fit/fit1D.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 1a92a7a..72c82f1 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -643,7 +643,8 @@ class FitEmissionLines1D(object):
         if err_filename is None:
             raise ValueError("Must set err_filename")
 
-        pickle.dump(value_matrix, open(err_filename, "wb"))
+        with open(err_filename, "wb") as f:
+            pickle.dump(value_matrix, f)
 
         return None
 
@@ -654,6 +655,7 @@ class FitEmissionLines1D(object):
         if err_filename is None:
             raise ValueError("Must specifiy err_filename")
 
-        value_matrix = pickle.load(open(err_filename, "rb"))
+        with open(err_filename, "rb") as f:
+            value_matrix = pickle.load(f)
 
         return value_matrix
-- 
2.43.0


From fc88f00908384cf7b13fbb5fc6de3dc60412f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 07/53] fix: 1D line profile was scaled by its brightest
 sample, not to its flux

---
 misfit/model/emission_lines_model.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 5b8292a..33833b6 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -275,9 +275,6 @@ def gaussian_line(x, mu, vel_sig, flux):
     # Convert vel_sig into sig in wavelength:
     sig = vel_sig / c_kms * mu
 
-    # make gaussian
-    gaus = norm.pdf(x, mu, sig)
-    # scale to amplitude
-    scale = flux/(sig*np.sqrt(2.*np.pi))
-    gaus = gaus/gaus.max()*scale
+    # make gaussian of unit area, and scale to the total flux
+    gaus = flux*norm.pdf(x, mu, sig)
     return gaus
-- 
2.43.0


From 758e731d476c22782890e4661705a5623f194246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:06 +0000
Subject: [PATCH 08/53] fix: Moffat PSF ignored the dither spacing

---
 misfit/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index 52ba1d3..bff23ec 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -69,7 +69,7 @@ class PSFMoffat(PSFBase):
         beta = self.PSF_beta
         alpha = PSF_FWHM/(2. * np.sqrt(np.power(2., 1./beta) -1))
 
-        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta)
+        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta, yspace_dither_arc=self.yspace_dither_arc)
 
 
 class Instrument(object):
-- 
2.43.0


From f838057bd023cc1e3e8d16c65aeb18bba447dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:06 +0000
Subject: [PATCH 09/53] fix: Instrument without PSF_type failed instead of
 assuming Gaussian

---
 misfit/instrument.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index bff23ec..ab97163 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -83,9 +83,10 @@ class Instrument(object):
 
         self.pixscale = None    # In arcsec/pixel
 
-        if kwargs['PSF_type'].strip().lower() == 'Gaussian'.lower():
+        PSF_type = str(kwargs.get('PSF_type', 'Gaussian'))
+        if PSF_type.strip().lower() == 'Gaussian'.lower():
             self.PSF = PSFGaussian(**kwargs)
-        elif kwargs['PSF_type'].strip().lower() == 'Moffat'.lower():
+        elif PSF_type.strip().lower() == 'Moffat'.lower():
             self.PSF = PSFMoffat(**kwargs)
         else:
             # Assume Gaussian:
-- 
2.43.0


From 6f8885901af7312ba8ea73c29fcd59547c934e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:06 +0000
Subject: [PATCH 10/53] fix: spacing of the 2D model's y grid did not match its
 cell size

---
 misfit/model/aper_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 09574f2..6acb339 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -706,8 +706,8 @@ class AperModel2D(object):
         self.z_arr = np.linspace(-(self.n_pix_z/2.-0.5)*self.delt_z,
                             (self.n_pix_z/2.-0.5)*self.delt_z, num=self.nZ)
 
-        self.y_arr = np.linspace(-(self.padY-0.5)*self.delt_y,
-                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY-0.5)*self.delt_y,
+        self.y_arr = np.linspace(-(self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
+                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
                 num=self.nY)
 
         self.z = self.theta[-1]
-- 
2.43.0


From ce66c57ef36dc5605f545907d569229f2ef07f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 11/53] fix: 2D model PSF kernel was off center, which
 displaced the modeled light

---
 misfit/model/aper_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 6acb339..9b0e221 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -598,10 +598,12 @@ class AperModel2D(object):
         ## Convolve the spectra cube with the PSF:
         ## Trim x_arr, y_arr so you're only making a convolution kernal for +- FWHM
         #       x_arr, y_arr are in *ARCSECONDS*
-        xc = np.average(self.x_arr)
-        yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        # The kernel must be centered on its middle sample (so an odd number of samples),
+        #   or the convolution would shift the light.
+        n_trim_x = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_x))
+        n_trim_y = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_y))
+        x_arr_trim = np.arange(-n_trim_x, n_trim_x+1)*self.delt_x
+        y_arr_trim = np.arange(-n_trim_y, n_trim_y+1)*self.delt_y
 
         #x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         #y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From d2b38b9398658e1ce10306f52ef9094f71ce2c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 12/53] fix: 1D rotation model PSF kernel was off center for an
 offset galaxy

---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 9b0e221..3f27e73 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -271,7 +271,7 @@ class AperModel1DRot(AperModel1DBase):
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
 
 
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
+        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim-xc, y_arr_trim-yc)
         self.instrument.PSF.set_conv_stamp(conv_stamp)
 
 
-- 
2.43.0


From 9891bbabe0cc10e07b4e62aa8253a3a4c90de775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 13/53] fix: aperture models sharing an instrument overwrote
 each other's PSF kernel

---
 misfit/model/aper_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 3f27e73..0f4a18f 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -166,6 +166,8 @@ class AperModel1DDisp(AperModel1DDispBase):
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
+        # The kernel depends on this model's grid, so do not store it on a shared instrument
+        self.instrument = self.instrument.copy()
         self.instrument.PSF.set_conv_stamp(conv_stamp)
 
     def calc_aper_correction(self):
@@ -205,6 +207,8 @@ class AperModel1DDispMisalign(AperModel1DDispBase):
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
+        # The kernel depends on this model's grid, so do not store it on a shared instrument
+        self.instrument = self.instrument.copy()
         self.instrument.PSF.set_conv_stamp(conv_stamp)
 
     def calc_aper_correction(self):
@@ -272,6 +276,8 @@ class AperModel1DRot(AperModel1DBase):
 
 
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim-xc, y_arr_trim-yc)
+        # The kernel depends on this model's grid, so do not store it on a shared instrument
+        self.instrument = self.instrument.copy()
         self.instrument.PSF.set_conv_stamp(conv_stamp)
 
 
@@ -619,6 +625,8 @@ class AperModel2D(object):
         kern3D = np.zeros(shape=(1, conv_stamp.shape[0], conv_stamp.shape[1],))
         kern3D[0, :, :] = conv_stamp
 
+        # The kernel depends on this model's grid, so do not store it on a shared instrument
+        self.instrument = self.instrument.copy()
         self.instrument.PSF.set_conv_stamp(kern3D)
 
     def make_model(self):
-- 
2.43.0


From 999fd363c796e16f27a0fabb5283599aca233b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 14/53] fix: 2D model grid was not updated for a new spatial
 shift or redshift

---
 misfit/model/aper_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 0f4a18f..9918a9e 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -638,6 +638,12 @@ class AperModel2D(object):
     def update_model(self, **kwargs):
         self.setAttr(**kwargs)
 
+        # The spatial shift and redshift set the grid: redo it if they have changed
+        if (self.theta[-1] != self.z) or (self.galaxy.spec2D.m0 + self.theta[-2] != self.m0_fit):
+            self.delta_position_velspace = None
+            self.inst_disp_wave = None
+            self.setup_calcs()
+
         self.do_model_calcs()
 
     def do_model_calcs(self):
-- 
2.43.0


From 3443280c839ce0407a907b779664ddf47de82ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 15/53] fix: 1D rotation models could not calculate the
 position-wavelength shift

---
 misfit/model/aper_model.py    | 2 +-
 misfit/model/kin_functions.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 9918a9e..d4ad02f 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -427,7 +427,7 @@ class AperModel1DRot(AperModel1DBase):
 
         # Add position offset, if calculating that shift:
         if self.do_position_wave_shift or self.do_inst_res_conv_effective:
-            if (self.delta_position_velspace is None) or (self.inst_disp_wave is None):
+            if (self.delta_position_velspace is None) or (self.inst_disp_vel is None):
                 #################
                 # Exclude the padded regions ????
                 wh_in_slit_x = np.array(range(self.padX,self.n_pix_x+self.padX))
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 9c2cd50..7ddae4f 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -365,6 +365,9 @@ def PSF_convolve(spectra_cube, PSF):
 
     if PSF.PSF_FWHM > 0.:
         kern3D = PSF._conv_stamp
+        if kern3D.ndim == 2:
+            # 2D kernel (eg, 1D rotation models): same for every wavelength
+            kern3D = np.array([kern3D])
 
         spectra_cube_see_conv = fftconvolve(spectra_cube, kern3D, mode='same')
         # Conserve total flux:
-- 
2.43.0


From 10a2341ce62a4d36e4d65465473c7b58b9599813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 16/53] fix: in-aperture dispersion ignored the
 dispersion-profile slope of the model

---
 misfit/model/kin_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 7ddae4f..200c5fe 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -600,7 +600,7 @@ def sigma_aper_dispersion(aperModel1DDisp = None, re_arcsec=None, re_mass_arcsec
     # re_arcsec should already be circularized -- use q=1.
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=1., delt_PA=0., re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    r_core=aperModel1DDisp.r_core, d=aperModel1DDisp.d)
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full, re_arcsec=re_arcsec,
                         n=aperModel1DDisp.galaxy.n, q=1., delt_PA=0.,r_core=aperModel1DDisp.r_core)
@@ -683,7 +683,7 @@ def sigma_aper_dispersion_misalign(aperModel1DDisp = None,
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=aperModel1DDisp.galaxy.q, delt_PA=aperModel1DDisp.galaxy.delt_PA,
                     re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    r_core=aperModel1DDisp.r_core, d=aperModel1DDisp.d)
 
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
@@ -998,13 +998,13 @@ def sigma_aper_dispersion_misalign_ORIG(aperModel1DDisp = None, re_arcsec=None,
 
 #@jit
 @njit
-def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None):
+def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None, d=-0.089):
 
     r = r_int_ellip(x, y, q, delt_PA)
 
     # r is relative to r_circularized for that given ellipse -- use re_circ.
     # INPUT RE_CIRC!
-    sigma_val = sigma_profile(r, re_mass_arcsec, r_core=r_core)
+    sigma_val = sigma_profile(r, re_mass_arcsec, d=d, r_core=r_core)
 
     return sigma_val**2
 
-- 
2.43.0


From a546684906e5ed65d7557a23adc0609df36ddb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 17/53] fix: adaptive wavelength upsampling changed the flux
 scale and lost rebin_output

---
 misfit/model/aper_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index d4ad02f..9d72560 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -900,8 +900,9 @@ class AperModel2D(object):
 
 
     def downsample_to_real_wave(self):
+        # Average (and not sum) the subsamples: this is a flux density
         self.model_out = kfuncs.rebin(self.model_out,
-                            self.nWave_real, self.n_pix_y_whole)
+                            self.nWave_real, self.model_out.shape[1])*(float(self.nWave_real)/self.nWave)
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
-- 
2.43.0


From 6a789e1e0db4e129558481a11f75e107c0eeb742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 18/53] fix: arctan and constant-dispersion profiles ignored
 the settings they were given

---
 misfit/model/kin_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/model/kin_classes.py b/misfit/model/kin_classes.py
index 74e19bb..a2f126c 100644
--- a/misfit/model/kin_classes.py
+++ b/misfit/model/kin_classes.py
@@ -66,6 +66,8 @@ class VelArctanProfile(VelProfile):
         self.theta = np.array([0.,0.])
         self.name = 'VelArctanProfile'
 
+        self.setAttr(**kwargs)
+
     def vel(self, r, z):
         try:
             return 2./np.pi * self.theta[0] * np.arctan( r /self.theta[1] )
@@ -90,6 +92,8 @@ class DispConstProfile(DispProfile):
         self.theta = np.array([0.])
         self.name = 'DispConstProfile'
 
+        self.setAttr(**kwargs)
+
     def sigma(self, r, z):
         return 0.*r + self.theta[0]
 
-- 
2.43.0


From 33f0343f69e9050ecc3e5a8c9e7c4b3ee01e644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 19/53] fix: models and fits shared their default profiles,
 options and results

---
 misfit/fit/fit2D.py           | 23 +++++++++++++++++------
 misfit/mock/generate_basic.py |  9 +++++++--
 misfit/model/kin_model.py     | 26 +++++++++++++++++---------
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 4e913e6..e9c35ec 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -40,7 +40,6 @@ except:
 # from misfit.model import AperModel2D
 from misfit.model import KinModel2D, KinModel2DOptions
 from misfit.model.kin_classes import KinProfileFiducial, IntensityProfileFiducial, ThetaPriorFlat
-from misfit import Galaxy
 
 import astropy.constants as constants
 c_cgs = constants.c.cgs.value
@@ -142,17 +141,29 @@ class FitEmissionLines2D(object):
     def __init__(self, galaxy=None, instrument=None, instrument_img=None,
                     linegroup_name = None, linenames_arr = None,
                     restwave_arr = None, flux_ratio_arr = None,
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions=KinModel2DOptions(),
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     thetaPrior=None,
                     thetaSettings=None,
-                    mcmcOptions = MCMC2DOptions(),
+                    mcmcOptions=None,
                     theta_linked_posteriors = None,
-                    mcmc_results = MCMCResults(),
+                    mcmc_results=None,
                     usetex=True,
                     **kwargs):
 
+        # Defaults: made fresh here, so they are never shared between fits
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(galaxy)
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+        if mcmcOptions is None:
+            mcmcOptions = MCMC2DOptions()
+        if mcmc_results is None:
+            mcmc_results = MCMCResults()
+
         self.galaxy = galaxy
         self.instrument = instrument
         self.instrument_img = instrument_img
diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 0ada591..d33a3a2 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -42,8 +42,8 @@ def generate_mock_basis(z=None,
         pad_factor=0.5,
         do_position_wave_shift=False,
         do_inst_res_conv_effective=False,
-        kinProfile = KinProfileFiducial(),
-        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
+        kinProfile = None,
+        intensityProfile = None,
         debug=False, **kwargs):
 
     # Enforce min slit-length
@@ -77,6 +77,11 @@ def generate_mock_basis(z=None,
     galaxy.namebase = str(ID)
 
 
+    if kinProfile is None:
+        kinProfile = KinProfileFiducial()
+    if intensityProfile is None:
+        intensityProfile = IntensityProfileFiducial(galaxy)
+
     intensityProfile.update_values(galaxy=galaxy)
 
     ###############
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc87e12..d98a979 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -10,7 +10,6 @@ import copy
 from misfit.model.kin_classes import KinProfileFiducial, IntensityProfileFiducial, \
                                 Theta2DSettingsFiducial
 from misfit.model import AperModel2D
-from misfit import Galaxy
 
 #from numba import jit
 ##from numba import njit
@@ -60,16 +59,25 @@ class KinModel2D(object):
     Handles variable + fixed parameters, talks to the Aper2DModel class,
     creates scaled model to data.
     """
-    def __init__(self, galaxy, thetaSettings=Theta2DSettingsFiducial(),
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions = KinModel2DOptions(),
+    def __init__(self, galaxy, thetaSettings=None,
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     do_position_wave_shift=False,
                     do_inst_res_conv_effective=False, **kwargs):
-        # Galaxy()
-        # Unpack thetaSettings:
-        self.theta = thetaSettings.theta
-        self.theta_vary = thetaSettings.theta_vary
+        # Defaults: made fresh here, so they are never shared between models
+        if thetaSettings is None:
+            thetaSettings = Theta2DSettingsFiducial()
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(galaxy)
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+
+        # Unpack thetaSettings: copy, as theta is updated in place
+        self.theta = copy.deepcopy(thetaSettings.theta)
+        self.theta_vary = copy.deepcopy(thetaSettings.theta_vary)
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
         self.theta_init = None
-- 
2.43.0


From 3e735470b5be47ffad0bfa3e2e11e45daa7b40b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 20/53] fix: KinModel2D ignored its own wave shift and
 resolution settings

---
 misfit/model/kin_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index d98a979..3229cdc 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -98,7 +98,12 @@ class KinModel2D(object):
 
         self.no_scale = False    # Set this to true for no scaling (eg, just generate models)
 
-        self.kinModelOptions = kinModelOptions
+        # Wave shift settings given directly to the model are also options for the aperture model
+        self.kinModelOptions = kinModelOptions.copy()
+        if do_position_wave_shift:
+            self.kinModelOptions.do_position_wave_shift = True
+        if do_inst_res_conv_effective:
+            self.kinModelOptions.do_inst_res_conv_effective = True
 
         self.model = None
         self.bestfit = None
-- 
2.43.0


From b7f4504fc610019a76220bcaced35cb9efd628bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 21/53] fix: prior kept the free parameters of an earlier setup

---
 misfit/fit/fit2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index e9c35ec..feb76dd 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -368,6 +368,8 @@ class FitEmissionLines2D(object):
 
         if ((self.thetaPrior.name == 'ThetaPriorFlat') & \
                 (self.thetaSettings.theta_bounds is not None)):
+            self.thetaPrior.theta = copy.deepcopy(self.kinModel.theta)
+            self.thetaPrior.theta_vary = copy.deepcopy(self.kinModel.theta_vary)
             self.thetaPrior.theta_bounds = copy.deepcopy(self.thetaSettings.theta_bounds)
 
 
-- 
2.43.0


From 7d29436956227228742aadc8985bdbcb0e1b7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 22/53] fix: close the best-fit model file after saving and
 loading it

---
 misfit/fit/fit2D.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index feb76dd..d9e9580 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -411,7 +411,8 @@ class FitEmissionLines2D(object):
 
 
         if self.mcmcOptions.filename_bestfit_model is not None:
-            pickle.dump(fitEmis2DResults, open(self.mcmcOptions.filename_bestfit_model, "wb"))
+            with open(self.mcmcOptions.filename_bestfit_model, "wb") as f:
+                pickle.dump(fitEmis2DResults, f)
             #pickle.dump(self, open(self.mcmcOptions.filename_bestfit_model, "wb"))
 
 
@@ -457,7 +458,8 @@ class FitEmissionLines2D(object):
             # fitEmis2D = pickle.load(open(self.mcmcOptions.filename_bestfit_model, "rb"))
             # for k in fitEmis2D.__dict__.keys():
             #     self.__dict__[k] = fitEmis2D.__dict__[k]
-            fitEmis2DResults = pickle.load(open(self.mcmcOptions.filename_bestfit_model, "rb"))
+            with open(self.mcmcOptions.filename_bestfit_model, "rb") as f:
+                fitEmis2DResults = pickle.load(f)
             for k in fitEmis2DResults.__dict__.keys():
                 self.__dict__[k] = fitEmis2DResults.__dict__[k]
 
-- 
2.43.0


From 994f87d8320b6942d8960bea0858203806aea4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 23/53] fix: zero-dispersion models in velocity mode failed on
 an undefined wavelength

---
 misfit/model/kin_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 200c5fe..639b973 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -108,8 +108,8 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
 
                 I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
             else:
-                I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                                nZ, nY, nX, delt_z, delt_wave, lam0)
+                I_Vxy_oneline = I_simple_collapse(I_wide, lam0*(1.+V_wide/c_kms), wave_arr, nWave,
+                                nZ, nY, nX, delt_z, delt_wave)
 
             I_Vxy += I_Vxy_oneline*flux_ratio_arr[i]
     elif spec_type == 'velocity':
@@ -125,7 +125,7 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
             I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
         else:
             I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                            nZ, nY, nX, delt_z, delt_wave, lam0)
+                            nZ, nY, nX, delt_z, delt_wave)
 
         I_Vxy += I_Vxy_oneline
 
@@ -134,10 +134,11 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
 #@jit(nopython=True)
 #@jit
 @njit
-def I_simple_collapse(I_wide, V_wide, wave_arr,
+def I_simple_collapse(I_wide, wave_wide, wave_arr,
                     nWave, nZ, nY, nX,
-                    delt_z, delt_wave, lam0):
+                    delt_z, delt_wave):
     # If no sigma: just V at each (x,y,z). No matrices.
+    # wave_wide: line position at each (x,y,z), in the units of wave_arr
     #   just gather all I,V over z at each (x,y): bin into vel_wave_arr
 
     I_Vxy = np.zeros((nWave, nY, nX))
@@ -153,7 +154,7 @@ def I_simple_collapse(I_wide, V_wide, wave_arr,
             # At every (x,y): for each z, find closest v bin, and add that to the intensity.
             for m in range(int(nZ)):
 
-                lam = lam0*(1.+V_wide[m,j,k]/c_kms)
+                lam = wave_wide[m,j,k]
                 I = I_wide[m,j,k]
                 lam_diff = np.abs(lam - wave_arr)
 
-- 
2.43.0


From 5a1323dc0c4d2ff12b6539c3d4504db29f7c7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 24/53] fix: zero-dispersion line profiles were not flux
 densities as the others are

---
 misfit/model/kin_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 639b973..6c4b492 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -160,7 +160,7 @@ def I_simple_collapse(I_wide, wave_wide, wave_arr,
 
                 # Force it all into the closest pixel:
                 wh_closest = np.argmin(lam_diff)
-                I_Vxy[wh_closest,j,k] += I*delt_z
+                I_Vxy[wh_closest,j,k] += I*delt_z/delt_wave
 
 
     return I_Vxy
-- 
2.43.0


From 46d2acf70f0eeb7cf2c75633d5f8c9b3a490b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 25/53] fix: unknown spectral modes silently gave an empty
 model

---
 misfit/model/kin_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 6c4b492..e1cc803 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -128,6 +128,8 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
                             nZ, nY, nX, delt_z, delt_wave)
 
         I_Vxy += I_Vxy_oneline
+    else:
+        raise ValueError("Spectral mode not recognized: {}".format(spec_type))
 
     return I_Vxy
 
-- 
2.43.0


From 30a64be70023d9a4682ca5f113e61689c18c8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 26/53] fix: 3D models kept the padding, changed the given
 instrument and differed after an update

---
 misfit/model/kin_model.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 3229cdc..66a4f0e 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -239,8 +239,8 @@ class KinModel2D(object):
                 n_pix_y_whole = galaxy.spec2D.flux.shape[0]
             else:
                 n_pix_y_whole = galaxy.spec2D.shape[0]
+            instrument = instrument.copy()
             instrument.slit_width = n_pix_y_whole*instrument.pixscale
-            n_pix_x_whole = n_pix_y_whole
 
             self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
                                 theta=self.theta,
@@ -253,6 +253,7 @@ class KinModel2D(object):
                                 do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
                                 absvalsigma=self.kinModelOptions.absvalsigma,
                                 adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
+                                adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
                                 sigma_floor=self.kinModelOptions.sigma_floor,
                                 debug=self.debug)#,
         else:
@@ -264,25 +265,31 @@ class KinModel2D(object):
         # Do downsampling:
         # # Save the 2D model to base part of class
 
-        # Shape: nSpec, nY, nX
-        nWave = len(galaxy.spec2D.wave.copy())
-        # if self.debug:
-        #     print("spec cube conv shape={}".format(self.aperModel.spectra_cube_conv.shape))
-        #     print("n_pix_y_whole={}, padY={}, n_pix_x_whole={}, padX={}".format(n_pix_y_whole,
-        #             self.aperModel.padY, n_pix_x_whole, self.aperModel.padX))
-        self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
-                    nWave, n_pix_y_whole+2*self.aperModel.padY, n_pix_x_whole+2*self.aperModel.padX)
+        self.set_model_cube()
 
         if self.debug:
             # Downsample others too
-            self.I_wide = kfuncs.rebin(self.aperModel.I_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            self.I_wide = self.trim_rebin_3D(self.aperModel.I_wide)
             #
-            self.V_wide = kfuncs.rebin(self.aperModel.V_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            self.V_wide = self.trim_rebin_3D(self.aperModel.V_wide)
             #
-            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            self.I_Vsq_wide = self.trim_rebin_3D(self.aperModel.I_Vsq_wide)
+
+    def set_model_cube(self):
+        # Downsample the convolved cube, which is already trimmed of its padding.
+        # Shape: nSpec, nY, nX
+        cube = self.aperModel.spectra_cube_conv
+        nWave = self.aperModel.nWave
+        self.model_cube = kfuncs.rebin(cube, nWave, self.aperModel.n_pix_y//self.aperModel.nSubpixels,
+                    self.aperModel.n_pix_x//self.aperModel.nSubpixels)
+        # Average the subsamples in wavelength, if it was upsampled
+        self.model_cube *= float(nWave)/cube.shape[0]
+
+    def trim_rebin_3D(self, arr):
+        # Trim the padding and downsample. Shape: nZ, nY, nX
+        am = self.aperModel
+        return kfuncs.rebin(arr[:, am.padY:am.n_pix_y+am.padY, am.padX:am.n_pix_x+am.padX],
+                    am.n_pix_z//am.nSubpixels, am.n_pix_y//am.nSubpixels, am.n_pix_x//am.nSubpixels)
 
     def update_3D_int_model(self, theta_fitting=None):
         # For illustrative purposes / toy-model use for mock analysis of IFU data:
@@ -300,7 +307,7 @@ class KinModel2D(object):
         self.aperModel.update_model(theta=self.theta)
 
         # # Save the 2D model to base part of class
-        self.model_cube = self.aperModel.spectra_cube.copy()
+        self.set_model_cube()
 
     # +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
-- 
2.43.0


From 780b3f5272368725e12055c3bff2e7b55eb92ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 27/53] fix: trim_spectrum_1D failed when given a rest-frame
 range

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 1669209..c6bfb90 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -46,7 +46,7 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
         trim_restwave_range = io.read_wave_range(param_restwave_filename,linename=linename)
 
     if trim_obswave_range is None:
-        trim_obswave_range = np.array(trim_restwave_range)*(1.+galaxy.z).tolist()
+        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()
 
     # Find the range there is coverage:
     if spec1D is not None:
-- 
2.43.0


From 468209938db64563d0cb716e37fa34fccf9d3846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 28/53] fix: the copying wavelength trim left the continuum
 arrays untrimmed

---
 misfit/general/galaxy_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c6bfb90..09e4743 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -158,6 +158,13 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D_trim.spec_mask = spec2D.spec_mask[:,wh]
                 spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]
 
+                try:
+                    spec2D_trim.flux_incl_cont = spec2D.flux_incl_cont[:,wh]
+                    spec2D_trim.cont_model = spec2D.cont_model[:,wh]
+                except:
+                    spec2D_trim.flux_incl_cont = None
+                    spec2D_trim.cont_model = None
+
                 spec2D_trim.calculate_restwave(galaxy)
             else:
                 spec2D_trim.wave = None
-- 
2.43.0


From 1db167985367a32ed48ea9f1daab7f81d1bdbd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 29/53] fix: spatial trimming failed without an expected
 position

---
 misfit/general/galaxy_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 09e4743..3b8655c 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -258,7 +258,8 @@ def trim_spectrum_2D_spatial(spec2D, galaxy, instrument):
     spec2D.m_lims = np.array([0, np.shape(spec2D.flux)[0]])
 
     # Offset ypos of the trimmed one:
-    spec2D.ypos = spec2D.ypos - l_ind
+    if spec2D.ypos is not None:
+        spec2D.ypos = spec2D.ypos - l_ind
 
 
     # +++++++++++++++++++++++++++++++++++++++++++++++++++++++
@@ -1132,7 +1133,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             # Trim edges, refit:
             params = lmfit.Parameters()
 
-            ypos_current -= trimval
+            ypos_current = ypos_guess - trimval
 
             params.add('mu', value=ypos_current, min=0, max=len(sp_arr)-1)
             if dither:
-- 
2.43.0


From db00432ab5b0c3cad83bc83152ff88b040aecb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 30/53] fix: continuum fit's sky mask overwrote the 1D
 spectrum's mask

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 3b8655c..ef2341a 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -396,7 +396,7 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
                             median_err=spec2D.median_flux_error,
                             cutoff=spec2D.band_cutoff, full=True)
 
-        spec_mask_tmp = galaxy.spec1D.spec_mask[:]
+        spec_mask_tmp = galaxy.spec1D.spec_mask.copy()
         spec_mask_tmp[wh_sky] = 0.
 
 
-- 
2.43.0


From a993735f2e74a347ef468a21ce3937a27d62fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 31/53] fix: spec_mask_missing masked whole rows of 2D spectra

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index ef2341a..6255303 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -719,7 +719,7 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
     if (not nonfinite_only) & (np.abs(spec_err).max() > 0.):
-        wh_missing = np.where(spec_err == 0.)[0]
+        wh_missing = np.where(spec_err == 0.)
         spec_mask[wh_missing] = 0.
     # ##########################################################
 
-- 
2.43.0


From 4dbbba30624fa931854847ed918875bfaea48acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 32/53] fix: right spectrum edge masked two pixels too many, or
 none near the start

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 6255303..7550b13 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -702,7 +702,7 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
         if edge_l > 0:
             spec_mask[edge_l:edge_l+num_edge] = 0
         if edge_r < len(spec)-1:
-            spec_mask[edge_r-num_edge-1:edge_r+1] = 0
+            spec_mask[max(edge_r-num_edge+1, 0):edge_r+1] = 0
 
     return spec_mask
 
-- 
2.43.0


From 611effab0c653b60e64227231b17f33f97260131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 33/53] fix: float index in the continuum debug plot

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 7550b13..9bcf803 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -453,7 +453,7 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
                         ls='-', color='orange')
 
 
-            ax.set_ylim([yy1d_range[0.01*len(yy1d)], yy1d_range[0.99*len(yy1d)]])
+            ax.set_ylim([yy1d_range[int(0.01*len(yy1d))], yy1d_range[int(0.99*len(yy1d))]])
             ax.set_title('Continuum fit, 1D spectrum')
 
 
-- 
2.43.0


From 4b95ba9cba412feb3ca5762d5fd0595353a2d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 34/53] fix: unsupported weighting type raised an unrelated
 error

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 9bcf803..a751576 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -1295,7 +1295,7 @@ def calculate_2D_fit_weights(spec2D):
         weights_nonnorm[spec2D.low_snr_row_inds] = 0.
     ## ++++++++++++++++++++++++++++++++++++++++++++
     else:
-        print("weighting type '{}' not supported".format(spec2D.weighting_type))
+        raise ValueError("weighting type '{}' not supported".format(spec2D.weighting_type))
 
     ### *******************************************************
 
-- 
2.43.0


From 22198c5c731db957873567bb8ccb610ec5fdcd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 35/53] fix: plotting the emission profile discarded the fit,
 for an attribute no spectrum has

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index a751576..fba159b 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -1663,7 +1663,7 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
                     f_or_m = "-".join(gal.maskname.split("_"))
                 except:
                     f_or_m = gal.field
-                ax.set_title(r'{}.{}.{} (SLITOBJNAME: {})'.format(f_or_m, spec2D.band, np.int64(gal.ID), spec2D.slitobjname))
+                ax.set_title(r'{}.{}.{}'.format(f_or_m, spec2D.band, np.int64(gal.ID)))
 
                 if (filename_plot is not None):
                     _plt.savefig(filename_plot, bbox_inches='tight', dpi=300)
-- 
2.43.0


From f8d07c335fe149ec7cb86d6d6e84b85fc56c4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 36/53] fix: peak S/N of the trimmed refit was read from the
 wrong row

---
 misfit/general/galaxy_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index fba159b..e22ee1f 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -1080,14 +1080,15 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                                     args=(xx, sp_arr, err_arr))
 
                 m0 = int(np.round(result.params['mu'].value)) + trimval
-                if (m0 > (len(snr_arr) -1)):
+                # snr_arr is trimmed here: find the closest row of the trimmed array
+                if (m0-trimval > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
-                elif (m0 < 0):
+                elif (m0-trimval < 0):
                     m0_closest = 0
                 else:
-                    m0_closest = m0
+                    m0_closest = m0-trimval
                 m0_shift_fit = result.params['mu'].value + trimval - m0
-                m0_peak_snr = snr_arr[m0_closest-trimval]
+                m0_peak_snr = snr_arr[m0_closest]
                 if dither:
                     m1 = int(np.round(result.params['mu_l'].value)) + trimval
                     m2 = int(np.round(result.params['mu_r'].value)) + trimval
-- 
2.43.0


From b75f457bfa866be2b13c01a71322ccd680577684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 37/53] fix: posterior peak finding failed with current numpy,
 and for one parameter

---
 misfit/general/general_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 5fcf554..19f4560 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -210,11 +210,11 @@ def find_peak_gaussian_KDE(flatchain, initval):
         peakvals = np.zeros(nparams)
         for i in range(nparams):
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
+            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
         return peakvals
     else:
-        neg_kernel = gaussian_KDE_kernel_func(flatchain)
-        peakval = fmin(neg_kernel, initval, disp=False)
+        kern = gaussian_kde(np.ravel(flatchain))
+        peakval = fmin(lambda x: -kern(x), initval, disp=False)
 
         return peakval
 
-- 
2.43.0


From 3efad3f97e8fe9b9a3065b25a3d26830da80f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 38/53] fix: a fixed dispersion made the absolute value of
 every chain column be taken

---
 misfit/fit/fit_core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index fbc399f..80923e1 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -945,10 +945,11 @@ def add_v_re_22(fitEmis2D):
                 else:
                     free_inds.append(None)
             ind = free_inds[ind_all]
-            fitEmis2D.sampler_dict['flatchain'][:, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
-            fitEmis2D.sampler_dict['chain'][:, :, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
+            if ind is not None:
+                fitEmis2D.sampler_dict['flatchain'][:, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
+                fitEmis2D.sampler_dict['chain'][:, :, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
         else:
             raise ValueError
 
-- 
2.43.0


From 8977958149ae588931072dcc84dc67ceb925dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 39/53] fix: repeating the analysis appended the derived
 quantities to the chain again

---
 misfit/fit/fit_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 80923e1..7349fa8 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -977,7 +977,9 @@ def add_v_re_22(fitEmis2D):
     V_re_arr = np.array([fitEmis2D.kinProfile.vel(fitEmis2D.galaxy.re_mass_arcsec, 0.)])
     V_22_arr = np.array([fitEmis2D.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_mass_arcsec, 0.)])
 
-    flatchain = np.append(fitEmis2D.sampler_dict['flatchain'].T,V_re_arr, axis=0).T
+    # Only the fit parameters: drop the derived columns of an earlier analysis
+    flatchain = fitEmis2D.sampler_dict['flatchain'][:, :fitEmis2D.kinModel.n_free_param]
+    flatchain = np.append(flatchain.T,V_re_arr, axis=0).T
     flatchain = np.append(flatchain.T,V_22_arr, axis=0).T
 
 
-- 
2.43.0


From a8b1016d9e88a1fa8c5478850e7cc16bd9a2c3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 40/53] fix: 1 sigma errors of later linked groups used the 2
 sigma limits

---
 misfit/fit/fit_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 7349fa8..4415785 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1074,6 +1074,7 @@ def get_param_posterior_bestfits(fitEmis2D):
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
         mcmc_lims_zip = list(zip(*mcmc_limits))
+        mcmc_lims_zip_2sig = list(zip(*mcmc_limits_2sig))
 
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
             mcmc_peak, mcmc_uncertainties_1sig = \
@@ -1083,10 +1084,9 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_lims_zip = list(zip(*mcmc_limits_2sig))
             mcmc_peak, mcmc_uncertainties_2sig = \
                     utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip,
+                    mcmc_uncertainties_2sig, mcmc_lims_zip_2sig,
                     theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
             fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
-- 
2.43.0


From dd76601d78bab2c1117e914c1199bde0925c8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 41/53] fix: autocorrelation times could not be computed with
 emcee 2

---
 misfit/fit/fit_core.py | 4 ++--
 misfit/fit/fit_io.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 4415785..3ee12af 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -296,7 +296,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
 
 
             try:
-                acor_time = sampler.get_autocorr_time(fitEmis2D, low=5, c=10)
+                acor_time = sampler.get_autocorr_time(low=5, c=10)
             except:
                 acor_time = "Undefined, chain did not converge"
 
@@ -439,7 +439,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
         f_log.write("Finished {} steps".format(finishedSteps)+"\n")
         try:
             #acor_time = [acor.acor(sampler.chain[:,:,jj])[0] for jj in range(sampler.dim)]
-            acor_time = sampler.get_autocorr_time(fitEmis2D, low=5, c=10)
+            acor_time = sampler.get_autocorr_time(low=5, c=10)
         except:
             acor_time = "Undefined, chain not converged"
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index f95a45e..efd89b4 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -48,7 +48,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         acor_time = sampler.get_autocorr_time(tol=10, quiet=True)
     except:
         try:
-            acor_time = sampler.get_autocorr_time(self, low=5, c=10)
+            acor_time = sampler.get_autocorr_time(low=5, c=10)
         except:
             acor_time = np.nan
 
-- 
2.43.0


From 8c16163d853bb720032ea6c57a56e815a5f9fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 42/53] fix: unthreaded emcee 2 runs failed closing a pool they
 do not have

---
 misfit/fit/fit_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 3ee12af..09ca11f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -475,7 +475,8 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
         sampler_dict = fit_io.make_emcee_sampler_dict(sampler, fitEmis2D=fitEmis2D, nBurn=0)
 
         #pool.close()
-        sampler.pool.close()
+        if sampler.pool is not None:
+            sampler.pool.close()
 
         if fitEmis2D.mcmcOptions.filename_sampler is not None:
             # Save stuff to file, for future use:
-- 
2.43.0


From dd7793fa905d0023d799eec8c26797395a0f4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 43/53] fix: runs of zero production steps failed on an
 unassigned step counter

---
 misfit/fit/fit_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 09ca11f..c334b7b 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -376,6 +376,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
 
         # --------------------------------
         # Run sampler: output info at each step
+        ii = -1
         for ii in range(fitEmis2D.mcmcOptions.nSteps):
             pos_cur = pos.copy()    # copy just in case things are set strangely
 
@@ -706,6 +707,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
         # --------------------------------
         # Run sampler: output info at each step
+        ii = -1
         for ii in range(fitEmis2D.mcmcOptions.nSteps):
             # --------------------------------
             # Only do one step at a time.
-- 
2.43.0


From 4eba822bf09a61e2962e75d809ffd6f0e0188f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 44/53] fix: sampling failed when no sampler HDF5 file name was
 set

---
 misfit/fit/fit_core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index c334b7b..8842b09 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -537,8 +537,12 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
     moves = emcee.moves.StretchMove(a=fitEmis2D.mcmcOptions.scale_param_a)
 
-    backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
-                                             name="burnin_mcmc")
+    # Without a file name, keep the steps in memory only.
+    if fitEmis2D.mcmcOptions.filename_sampler_h5 is not None:
+        backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
+                                                 name="burnin_mcmc")
+    else:
+        backend_burn = emcee.backends.Backend()
 
     if fitEmis2D.mcmcOptions.overwrite:
         backend_burn.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
@@ -686,7 +690,10 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
         # Setup sampler:
         # --------------------------------
         # Start backend:
-        backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        if fitEmis2D.mcmcOptions.filename_sampler_h5 is not None:
+            backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        else:
+            backend = emcee.backends.Backend()
 
         if fitEmis2D.mcmcOptions.overwrite:
             backend.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
-- 
2.43.0


From 7fc3b029d2208a7e758c3d1f53118662aba6b4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 45/53] fix: sampler files were left open

---
 misfit/fit/fit_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index efd89b4..cf34c73 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -98,9 +98,11 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
 #     return fitEmis2D
 
 def loadpickle(filename):
-    data = pickle.load(open(filename, "rb"))
+    with open(filename, "rb") as f:
+        data = pickle.load(f)
     return data
 
 def dumppickle(data, filename=None):
-    pickle.dump(data, open(filename, "wb") )
+    with open(filename, "wb") as f:
+        pickle.dump(data, f)
     return None
-- 
2.43.0


From c00f504bc79634545db832586518b38f3cedb5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 46/53] fix: mock galaxies ignored the dither setting

---
 misfit/mock/generate_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index d33a3a2..2b86f43 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -61,7 +61,7 @@ def generate_mock_basis(z=None,
     galaxy = Galaxy(z=z, ID=ID,
                 n=n, re_arcsec=re_arcsec,
                 delt_PA=delt_PA, q=q, q0=q0,
-                dither=False, generate_model=True)
+                dither=dither, generate_model=True)
     spec2D = ObsSpectrum2D(band=band, wave=wave,
                     line_primary=line_primary,linegroup_name=linegroup_name,
                     no_continuum_subtraction=True,
-- 
2.43.0


From 747622d359a6de69a45bbc2c49e7d4843576bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 47/53] fix: slit plots called matplotlib with removed argument
 forms

---
 misfit/plot/plot_image_slit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 0fd1f63..bc78e8c 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -374,7 +374,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             ############
             # Information in sub-title:
             if external_ax is False:
-                ax.annotate(s=s, xy=[.5, 0.05], xycoords='figure fraction',
+                ax.annotate(s, xy=[.5, 0.05], xycoords='figure fraction',
                             ha='center', va='bottom')
             if verbose:
                 print("% misfit.plot.plot_image_slit:")
@@ -404,7 +404,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
             # Plot ellipse:
             ell = Ellipse((x0_gal,y0_gal), 2.*semi_minor/pscale,
-                            2.*semi_major/pscale, galfit_angle,
+                            2.*semi_major/pscale, angle=galfit_angle,
                             ec='blue', fc='none', fill=False, zorder=11)
 
             ####################################
-- 
2.43.0


From 1969e635223ecb82001e3783c7bd1afba4bda019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 48/53] fix: slit plots failed without the light profile
 ellipse, or when verbose

---
 misfit/plot/plot_image_slit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index bc78e8c..968a874 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -105,6 +105,9 @@ def plot_image_slit(galaxy=None, instrument=None,
         x0_galfit, y0_galfit = w.wcs_world2pix(galaxy.sersicRA, galaxy.sersicDEC, originWCS)
         x0_galfit -= 1. # Convert to np pixel coords
         y0_galfit -= 1. # Convert to np pixel coords
+    else:
+        # No light profile to show: use the catalogue position
+        x0_galfit, y0_galfit = x0WCS_sci, y0WCS_sci
 
     # x is column, y is row: arrays are row, column
     cent_pix= np.array([(np.shape(galaxy.pstamp.pstamp)[1]-1)/2.,
@@ -175,7 +178,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
         if verbose:
             #print "yarc_orig=", yarc_orig
-            print("yarc_new={:0.3f}".format(yarc_new) )
+            print("yarc_new={}".format(yarc_new) )
 
         #!!!!!!!!!!!!!!!!!!!!!!!
 
@@ -243,7 +246,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         y_off_mid = (y0_gal-ylim[0]) - (m0+0.5)*instrument.pixscale/pscale
         ylim += y_off_mid
         if verbose:
-            print("(y0_gal-ylim[0]) - (m0+0.5)={:0.3f}".format( (y0_gal-ylim[0]) - (m0+0.5) ) )
+            print("(y0_gal-ylim[0]) - (m0+0.5)={}".format( (y0_gal-ylim[0]) - (m0+0.5) ) )
     #
     if verbose:
         print("ylim = {}".format(ylim) )
@@ -541,7 +544,7 @@ def box_integrate(x, y, x_new, debug=False):
             ind_r = 'None'
 
         if debug:
-            print("indicies = {:d} {:d} {:d}".format(ind_l, ind_c, ind_r) )
+            print("indicies = {} {} {}".format(ind_l, ind_c, ind_r) )
 
 
         y_new[i] = int_y/delt_x_new
-- 
2.43.0


From 19b9cb55b0de46f1506c48f057ac3013dff56de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 49/53] fix: best-fit plots failed without a model, or with
 masked sky columns

---
 misfit/plot/plot_bestfit.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index e5ded5f..543d0ab 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -76,7 +76,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
 
     #
     # Pstamp + slit plot, image convolved to spectrum resolution:
-    if fitEmis2D.kinModel.bestfit is not None:
+    if (fitEmis2D.kinModel is not None) and (fitEmis2D.kinModel.bestfit is not None):
         m0shift = fitEmis2D.kinModel.bestfit.theta[-2]
     else:
         m0shift = 0.
@@ -276,27 +276,25 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     hatch_pattern = '//'
     lw_edge_hatch = 0
     for wh in wh_cont:
-        if len(wh_cont) == 1:
-            wh_cont = [wh_cont[0], wh_cont[0]]
-        axes[2].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                        [n_wave-pad, wh_cont[0]-pad],
-                        [n_wave-pad, wh_cont[-1]+1-pad],
-                        [-pad, wh_cont[-1]+1-pad]],
+        axes[2].add_patch(Polygon([[wh[0]-pad, -pad],
+                        [wh[0]-pad, n_sp-pad],
+                        [wh[-1]+1-pad, n_sp-pad],
+                        [wh[-1]+1-pad, -pad]],
                         closed=True,
                         lw=lw_edge_hatch,
                         fill=False, color = color_hatch))
         if fitEmis2D.kinModel is not None:
-            axes[3].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[-1]+1-pad],
-                            [-pad, wh_cont[-1]+1-pad]],
+            axes[3].add_patch(Polygon([[wh[0]-pad, -pad],
+                            [wh[0]-pad, n_sp-pad],
+                            [wh[-1]+1-pad, n_sp-pad],
+                            [wh[-1]+1-pad, -pad]],
                             closed=True,
                             lw=lw_edge_hatch,
                             fill=False, hatch=hatch_pattern, color=color_hatch))
-            axes[4].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[-1]+1-pad],
-                            [-pad, wh_cont[-1]+1-pad]],
+            axes[4].add_patch(Polygon([[wh[0]-pad, -pad],
+                            [wh[0]-pad, n_sp-pad],
+                            [wh[-1]+1-pad, n_sp-pad],
+                            [wh[-1]+1-pad, -pad]],
                             closed=True,
                             lw=lw_edge_hatch,
                             fill=False, hatch=hatch_pattern, color=color_hatch))
-- 
2.43.0


From 03c36912b244ad96c922d58441a90421cfa324cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 50/53] fix: corner plots failed with current corner, which
 takes three title quantiles

---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 7e189e2..ab1b1e0 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -47,7 +47,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
                             plot_datapoints=False,
-                            show_titles=True,
+                            show_titles=False,      # Titles with the best-fit values are set below
                             bins=40,
                             plot_contours=True,
                             verbose=verbose)
-- 
2.43.0


From 2d9afaef5beb89bb098955b34914be7032ba6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 51/53] fix: corner plot label was not valid math text in
 current matplotlib

---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index ab1b1e0..e5d2f91 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -139,7 +139,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
     # Annotate R_E, n
     if usetex:
-        galparam_str = r'$n=%0.2f$, $R_E=%0.2f "$' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
+        galparam_str = r'$n=%0.2f$, $R_E=%0.2f^{\prime\prime}$' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     else:
         galparam_str = r'n=%0.2f, RE=%0.2f "' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     fig.gca().annotate(galparam_str, (0.01, 0.), xycoords='figure fraction',
-- 
2.43.0


From 6937c7ae868588950c88067ef34f97cd2469b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 52/53] fix: EmissionLines dropped the arguments it was given

---
 misfit/model/emission_lines_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 33833b6..56c1b4d 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -148,10 +148,10 @@ class EmissionLines(object):
     Define basics of emission line sets (or singles)
     """
     def __init__(self, name, linenames_arr, restwave_arr, flux_ratio_arr):
-        self.name = None
-        self.linenames_arr = None
-        self.restwave_arr = None
-        self.flux_ratio_arr = None
+        self.name = name
+        self.linenames_arr = linenames_arr
+        self.restwave_arr = restwave_arr
+        self.flux_ratio_arr = flux_ratio_arr
 
 
 
-- 
2.43.0


From ca42d3285ab1cf082ca863a5e4185cce65865b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:43 +0000
Subject: [PATCH 53/53] fix: box integration counted edge pixels twice and gave
 negative flux beyond the image

---
 misfit/plot/plot_image_slit.py | 42 ++++------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 968a874..2ff7d7a 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -505,46 +505,14 @@ def box_integrate(x, y, x_new, debug=False):
         low = x_new[i] - delt_x_new/2.
         high = x_new[i] + delt_x_new/2.
 
-        # Initialize integrated value:
-        int_y = 0.
+        # Length of each old pixel that lies within the new range;
+        #   zero outside, so data missing beyond the original x are implicitly zero.
+        overlap = np.clip(np.minimum(x_high, high) - np.maximum(x_low, low), 0., None)
 
-        try:
-            # Pixels wholly contained within the new range:
-            c_l = np.where(x_low >= low)[0]
-            c_r = np.where(x_high <= high)[0]
-            ind_c = np.array(list(set(c_l) & set(c_r)))
-            ind_c.sort()
-
-            int_y += np.sum(y[ind_c])*delt_x
-        except:
-            ind_c = 'None'
-
-
-        # For outside edges: wrap in try..except
-        #   to cover case of x_new extending further than
-        #   original x -- the missing data will implicitly be zero.
-        try:
-            # Find element of x_low just lower than low
-            ind_l = np.where(x_low <= low)[0].max()
-            # range corresponding to this interval:
-            # (x_high[ind_l] - low)
-
-            int_y += y[ind_l]*(x_high[ind_l]-low)
-        except:
-            ind_l = 'None'
-
-        try:
-            # find element of x_high just higher than high
-            ind_r = np.where(x_high >= high)[0].min()
-            # range corresponding to this interval:
-            # (high - x_low[ind_r])
-
-            int_y += y[ind_r]*(high-x_low[ind_r])
-        except:
-            ind_r = 'None'
+        int_y = np.sum(y*overlap)
 
         if debug:
-            print("indicies = {} {} {}".format(ind_l, ind_c, ind_r) )
+            print("indicies = {}".format(np.where(overlap > 0.)[0]))
 
 
         y_new[i] = int_y/delt_x_new
-- 
2.43.0

