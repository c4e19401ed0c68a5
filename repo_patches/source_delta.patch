From 787c47c6f37252bb8f6b7d15d402714610355f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 01/61] fix: use Python/numpy names that exist (np.int,
 np.float, np.NaN were removed)

---
 misfit/fit/fit_core.py         |  6 ++---
 misfit/fit/fit_io.py           |  2 +-
 misfit/general/galaxy_utils.py | 46 +++++++++++++++++-----------------
 misfit/model/aper_model.py     |  2 +-
 misfit/model/kin_functions.py  |  2 +-
 misfit/plot/plot_bestfit.py    |  2 +-
 misfit/plot/plot_image_slit.py |  8 +++---
 misfit/plot/plot_trace.py      |  4 +--
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1d3016f..fbc399f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -195,7 +195,7 @@ def run_mcmc(fitEmis2D, fitEmis2D_fit=None):
         and then delete attributes
     """
     print("fitting with emcee version: {}".format(emcee.__version__))
-    if np.int(emcee.__version__[0]) >= 3:
+    if int(emcee.__version__[0]) >= 3:
         fitEmis2D = _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
     else:
         fitEmis2D = _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
@@ -216,7 +216,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
@@ -515,7 +515,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c73ba99..f95a45e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -50,7 +50,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
         except:
-            acor_time = np.NaN
+            acor_time = np.nan
 
     try:
         nDim = sampler.ndim
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0c95bcd..1669209 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -891,7 +891,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                             args=(xx, sp_arr, err_arr))
 
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         if (m0 > (len(snr_arr) -1)):
             m0_closest = len(snr_arr) -1
         elif (m0 < 0):
@@ -902,8 +902,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0_closest]
         if dither:
-            m1 = np.int(np.round(result.params['mu_l'].value))
-            m2 = np.int(np.round(result.params['mu_r'].value))
+            m1 = int(np.round(result.params['mu_l'].value))
+            m2 = int(np.round(result.params['mu_r'].value))
 
         if debug:
             print(ypos)
@@ -931,9 +931,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             sp_ind_neg2 = m2
 
             diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-            cut = np.int(np.ceil(diff/2.))
+            cut = int(np.ceil(diff/2.))
         else:
-            cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+            cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
         m_min = m0 - cut
         m_max = m0 + cut
@@ -950,7 +950,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("m0, ypos=", m0, ypos)
 
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
 
                 params = lmfit.Parameters()
 
@@ -974,7 +974,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                 args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value))
+                m0 = int(np.round(result.params['mu'].value))
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -984,8 +984,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value - m0
                 m0_peak_snr = snr_arr[m0_closest]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value))
-                    m2 = np.int(np.round(result.params['mu_r'].value))
+                    m1 = int(np.round(result.params['mu_l'].value))
+                    m2 = int(np.round(result.params['mu_r'].value))
 
                 if debug:
                     print(ypos)
@@ -1010,9 +1010,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
 
                 m_min = m0 - cut
@@ -1071,7 +1071,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                     args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value)) + trimval
+                m0 = int(np.round(result.params['mu'].value)) + trimval
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -1081,8 +1081,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value + trimval - m0
                 m0_peak_snr = snr_arr[m0_closest-trimval]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                    m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                    m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                    m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
                 if debug:
                     print(ypos)
@@ -1105,9 +1105,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
                 m_min = m0 - cut
                 m_max = m0 + cut
@@ -1147,12 +1147,12 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 result = lmfit.minimize(utils.gaus_residual, params,
                             args=(xx, sp_arr, err_arr))
 
-            m0 = np.int(np.round(result.params['mu'].value)) + trimval
+            m0 = int(np.round(result.params['mu'].value)) + trimval
             m0_shift_fit = result.params['mu'].value + trimval - m0
             m0_peak_snr = snr_arr[m0-trimval]
             if dither:
-                m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
             if debug:
                 print(ypos            )
@@ -1175,9 +1175,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 sp_ind_neg2 = m2
 
                 diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                cut = np.int(np.ceil(diff/2.))
+                cut = int(np.ceil(diff/2.))
             else:
-                cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
             m_min = m0 - cut
             m_max = m0 + cut
@@ -1195,7 +1195,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         result = lmfit.minimize(utils.gaus_residual, params,
                         args=(xx, sp_arr, err_arr))
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0]
 
@@ -1225,7 +1225,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         if ypos is not None:
             if ((np.abs(ypos-m0) > 2.) & (not skip_check)):
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
                 m0_shift_fit = ypos - m0
                 m0_peak_snr = snr_arr[m0]
 
diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e36093b..09574f2 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -750,7 +750,7 @@ class AperModel2D(object):
     def check_do_upsample_wave(self):
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
             # Create new array that has finer sampling:
-            self.delt_wave = self.delt_wave_real / np.float(self.adaptive_upsample_factor)
+            self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
             nwmin = self.wave_arr.min() - 0.5*(self.delt_wave_real - self.delt_wave)
             nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5dbb9d1..9c2cd50 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -290,7 +290,7 @@ def check_slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_widt
     if modified_bounds:
         # Determine the new mu:
         model = A_tmp*gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
-        model_mask = np.zeros(len(xarr))*np.NaN
+        model_mask = np.zeros(len(xarr))*np.nan
         model_mask[wh_in_slit_x] = 1.
         model_orig = model.copy()
         model *= model_mask
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index c264bfd..e5ded5f 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -56,7 +56,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     
     """
     sh_spec_trim = np.shape(fitEmis2D.galaxy.spec2D.flux)
-    sp_rat = sh_spec_trim[1]/np.float(sh_spec_trim[0])  # width/height
+    sp_rat = sh_spec_trim[1]/float(sh_spec_trim[0])  # width/height
 
 
     fig = plt.figure()
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index d1c7803..0fd1f63 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -163,7 +163,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         yarc_orig = yarr_orig*instrument_img.pixscale
 
         # Output pix/arc array:
-        n_round = np.int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
+        n_round = int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
 
         ### New:
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
@@ -250,8 +250,8 @@ def plot_image_slit(galaxy=None, instrument=None,
 
     #######################################
     # Scale based on noise levels:
-    xlim_round = np.array([np.int(np.round(xlim[0])), np.int(np.round(xlim[1]))])
-    ylim_round = np.array([np.int(np.round(ylim[0])), np.int(np.round(ylim[1]))])
+    xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
+    ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
@@ -259,7 +259,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     range_spec = np.abs(range_spec)
     range_spec.sort()
     # Only consider the lowest 50\% *abs* points:
-    range_spec = range_spec[0:np.int(np.ceil(len(range_spec)/2.))]
+    range_spec = range_spec[0:int(np.ceil(len(range_spec)/2.))]
     median_err = np.median(range_spec)
 
     ext = 3.
diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 1fe2433..6838f2c 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -45,7 +45,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     nWalkers = sampler_dict['nWalkers']
 
-    alpha = max(0.01, 1./np.float(nWalkers))
+    alpha = max(0.01, 1./float(nWalkers))
 
 
     # Define random color inds for tracking some walkers:
@@ -56,7 +56,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
     trace_inds = np.random.randint(0,nWalkers, size=nTraceWalkers)
     trace_colors = []
     for i in range(nTraceWalkers):
-        trace_colors.append(cmap(1./np.float(nTraceWalkers)*i))
+        trace_colors.append(cmap(1./float(nTraceWalkers)*i))
 
     norm_inds = np.setdiff1d(range(nWalkers), trace_inds)
 
-- 
2.43.0


From a7d99f564587a3f1945b06b4b6b3cd96191976f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 02/61] fix: 1D wavelength trimming by rest-frame range fails
 for a plain float redshift

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 1669209..c6bfb90 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -46,7 +46,7 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
         trim_restwave_range = io.read_wave_range(param_restwave_filename,linename=linename)
 
     if trim_obswave_range is None:
-        trim_obswave_range = np.array(trim_restwave_range)*(1.+galaxy.z).tolist()
+        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()
 
     # Find the range there is coverage:
     if spec1D is not None:
-- 
2.43.0


From 35519aa751538dbf5257c9b6b13a90db796758f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 03/61] fix: 1D fit aborted with a stray exception after
 computing its uncertainties

---
 misfit/fit/fit1D.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 41b622d..ca56062 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -506,8 +506,6 @@ class FitEmissionLines1D(object):
             self.cont_coeff_err =   \
                 values_err[len(self.names_arr)+2:len(self.names_arr)+2+self.cont_order+1,:]
 
-            raise ValueError
-
         else:
             print( "Not doing errors")
             self.z_err =            np.zeros(2)
-- 
2.43.0


From cf3a3b93f587e93c935343a2e4547248bda06c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 04/61] fix: instrument correction of the 1D dispersion errors
 used an attribute that does not exist

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index ca56062..3b52b3d 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -612,7 +612,7 @@ class FitEmissionLines1D(object):
 
             # Correct all in value matrix
             vel_disp_mc = value_matrix[:,1]
-            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.galaxy.spec1D.instrument_resolution**2)
+            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)
 
             # Make non-finite cases: these are where inst res > vel disp
             vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
-- 
2.43.0


From 250eb81d936acad284521e43e286a6ddf9915510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 05/61] fix: 1D fit of line sets with different numbers of
 lines could not be set up

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 3b52b3d..0309e1b 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -181,7 +181,7 @@ class FitEmissionLines1D(object):
                     wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 waves_arr.append(wave_arr)
 
-            self.restwave_arr = np.array(waves_arr)
+            self.restwave_arr = waves_arr
 
     def setup_spectrum(self):
         """
-- 
2.43.0


From 0c3d9e6af7aca553b863e7095426753add641c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 06/61] fix: a 1D line's flux depended on which wavelengths the
 profile was sampled at

---
 misfit/model/emission_lines_model.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 5b8292a..c3617b7 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -275,9 +275,6 @@ def gaussian_line(x, mu, vel_sig, flux):
     # Convert vel_sig into sig in wavelength:
     sig = vel_sig / c_kms * mu
 
-    # make gaussian
-    gaus = norm.pdf(x, mu, sig)
-    # scale to amplitude
-    scale = flux/(sig*np.sqrt(2.*np.pi))
-    gaus = gaus/gaus.max()*scale
+    # make gaussian, scaled to the total flux
+    gaus = flux*norm.pdf(x, mu, sig)
     return gaus
-- 
2.43.0


From a6c7249b1e2044a4ee766fe86c39c5b28f39a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:26 +0000
Subject: [PATCH 07/61] fix: aperture models sharing an instrument used each
 other's PSF stamp

---
 misfit/model/aper_model.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 09574f2..0e92ac5 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -166,9 +166,12 @@ class AperModel1DDisp(AperModel1DDispBase):
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = conv_stamp
 
     def calc_aper_correction(self):
+        # The instrument may be shared: use the stamp of *this* model
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.sigma_ap = kfuncs.sigma_aper_dispersion(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -205,9 +208,12 @@ class AperModel1DDispMisalign(AperModel1DDispBase):
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = conv_stamp
 
     def calc_aper_correction(self):
+        # The instrument may be shared: use the stamp of *this* model
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.sigma_ap = kfuncs.sigma_aper_dispersion_misalign(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -272,10 +278,13 @@ class AperModel1DRot(AperModel1DBase):
 
 
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        self.conv_stamp = conv_stamp
 
 
     def calc_aper_correction(self, recalc=False):
+        # The instrument may be shared: use the stamp of *this* model
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.update_kinProfile()
 
 
@@ -617,7 +626,7 @@ class AperModel2D(object):
         kern3D = np.zeros(shape=(1, conv_stamp.shape[0], conv_stamp.shape[1],))
         kern3D[0, :, :] = conv_stamp
 
-        self.instrument.PSF.set_conv_stamp(kern3D)
+        self.conv_stamp = kern3D
 
     def make_model(self):
 
@@ -632,6 +641,9 @@ class AperModel2D(object):
 
     def do_model_calcs(self):
 
+        # The instrument may be shared: use the stamp of *this* model
+        self.instrument.PSF.set_conv_stamp(self.conv_stamp)
+
         self.kinProfile.update_theta(self.theta)
 
         if self.adaptive_upsample_wave:
-- 
2.43.0


From 72d92f583b8d881f10ba8ec8a35f3019a0ce37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 08/61] fix: 2D model PSF stamp was off-center unless the
 galaxy sat at the slit center

---
 misfit/model/aper_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 0e92ac5..8d06855 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -607,10 +607,12 @@ class AperModel2D(object):
         ## Convolve the spectra cube with the PSF:
         ## Trim x_arr, y_arr so you're only making a convolution kernal for +- FWHM
         #       x_arr, y_arr are in *ARCSECONDS*
-        xc = np.average(self.x_arr)
-        yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        # The stamp must be *CENTERED* (odd number of pixels, peak in the central one),
+        #       wherever the galaxy lies within the slit
+        nx_half = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_x))
+        ny_half = int(np.floor(self.instrument.PSF.PSF_FWHM/self.delt_y))
+        x_arr_trim = np.arange(-nx_half, nx_half+1)*self.delt_x
+        y_arr_trim = np.arange(-ny_half, ny_half+1)*self.delt_y
 
         #x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         #y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From 0eaebbcc190a036d0c9f5363bd9d9c5c273159cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 09/61] fix: 2D model spatial grid was compressed relative to
 the instrument pixel scale

---
 misfit/model/aper_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 8d06855..9fd22eb 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -720,8 +720,9 @@ class AperModel2D(object):
         self.z_arr = np.linspace(-(self.n_pix_z/2.-0.5)*self.delt_z,
                             (self.n_pix_z/2.-0.5)*self.delt_z, num=self.nZ)
 
-        self.y_arr = np.linspace(-(self.padY-0.5)*self.delt_y,
-                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY-0.5)*self.delt_y,
+        # y=0 is the center of (whole) pixel 0; subpixel spacing is delt_y.
+        self.y_arr = np.linspace(-(self.padY + 0.5*(self.nSubpixels-1.))*self.delt_y,
+                (self.n_pix_y - 1. - 0.5*(self.nSubpixels-1.) + self.padY)*self.delt_y,
                 num=self.nY)
 
         self.z = self.theta[-1]
-- 
2.43.0


From 6ca4b69ce113d747a4d13347c0db884be0b3074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 10/61] fix: changing m0_shift or z of an existing 2D model had
 no effect on its spatial grid and line wavelengths

---
 misfit/model/aper_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 9fd22eb..32048c9 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -639,6 +639,12 @@ class AperModel2D(object):
     def update_model(self, **kwargs):
         self.setAttr(**kwargs)
 
+        # The grid depends on m0_shift, z:
+        if (self.theta[-2] != self.m0_shift) or (self.theta[-1] != self.z):
+            self.delta_position_velspace = None
+            self.inst_disp_wave = None
+            self.setup_calcs()
+
         self.do_model_calcs()
 
     def do_model_calcs(self):
@@ -726,9 +732,10 @@ class AperModel2D(object):
                 num=self.nY)
 
         self.z = self.theta[-1]
+        self.m0_shift = self.theta[-2]
 
         # Offset m0_fit to be at 0.:
-        self.m0_fit = self.galaxy.spec2D.m0 + self.theta[-2]
+        self.m0_fit = self.galaxy.spec2D.m0 + self.m0_shift
         # Get primary lam0:
         if self.spec_type == 'wave':
             self.lam0_primary = self.galaxy.spec2D.restwave_arr[0]*(1.+self.z)
-- 
2.43.0


From d4d81b1413e2aeb67b0f8fd0a91ea5c59ad15a75 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 11/61] fix: model and fit objects created with default
 arguments shared their state

---
 misfit/fit/fit2D.py           | 22 +++++++++++++++++-----
 misfit/mock/generate_basic.py | 10 ++++++++--
 misfit/model/kin_model.py     | 22 ++++++++++++++++------
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 4e913e6..cbf0e84 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -142,17 +142,29 @@ class FitEmissionLines2D(object):
     def __init__(self, galaxy=None, instrument=None, instrument_img=None,
                     linegroup_name = None, linenames_arr = None,
                     restwave_arr = None, flux_ratio_arr = None,
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions=KinModel2DOptions(),
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     thetaPrior=None,
                     thetaSettings=None,
-                    mcmcOptions = MCMC2DOptions(),
+                    mcmcOptions = None,
                     theta_linked_posteriors = None,
-                    mcmc_results = MCMCResults(),
+                    mcmc_results = None,
                     usetex=True,
                     **kwargs):
 
+        # Defaults: not shared between instances
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(galaxy)
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+        if mcmcOptions is None:
+            mcmcOptions = MCMC2DOptions()
+        if mcmc_results is None:
+            mcmc_results = MCMCResults()
+
         self.galaxy = galaxy
         self.instrument = instrument
         self.instrument_img = instrument_img
diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 0ada591..140ad78 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -42,10 +42,16 @@ def generate_mock_basis(z=None,
         pad_factor=0.5,
         do_position_wave_shift=False,
         do_inst_res_conv_effective=False,
-        kinProfile = KinProfileFiducial(),
-        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
+        kinProfile = None,
+        intensityProfile = None,
         debug=False, **kwargs):
 
+    # Defaults: not shared between calls
+    if kinProfile is None:
+        kinProfile = KinProfileFiducial()
+    if intensityProfile is None:
+        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+
     # Enforce min slit-length
     if slit_length < nymin*pixscale:
         slit_length = nymin*pixscale
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc87e12..b933514 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -60,15 +60,25 @@ class KinModel2D(object):
     Handles variable + fixed parameters, talks to the Aper2DModel class,
     creates scaled model to data.
     """
-    def __init__(self, galaxy, thetaSettings=Theta2DSettingsFiducial(),
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions = KinModel2DOptions(),
+    def __init__(self, galaxy, thetaSettings=None,
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     do_position_wave_shift=False,
                     do_inst_res_conv_effective=False, **kwargs):
         # Galaxy()
-        # Unpack thetaSettings:
-        self.theta = thetaSettings.theta
+        # Defaults: not shared between instances
+        if thetaSettings is None:
+            thetaSettings = Theta2DSettingsFiducial()
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(galaxy)
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+
+        # Unpack thetaSettings: leave the input settings unchanged when theta is updated
+        self.theta = copy.deepcopy(thetaSettings.theta)
         self.theta_vary = thetaSettings.theta_vary
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
-- 
2.43.0


From fd41eb1d82e68b9c3846f6ae16317adfa1968a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 12/61] fix: right edge of a 1D spectrum was masked by the
 wrong number of pixels (or not at all)

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c6bfb90..0574bd0 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -694,7 +694,7 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
         if edge_l > 0:
             spec_mask[edge_l:edge_l+num_edge] = 0
         if edge_r < len(spec)-1:
-            spec_mask[edge_r-num_edge-1:edge_r+1] = 0
+            spec_mask[max(0, edge_r-num_edge+1):edge_r+1] = 0
 
     return spec_mask
 
-- 
2.43.0


From 92357b71326e2a6c29900b344cc045f631bdd314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 13/61] fix: 1sigma errors of every linked parameter set after
 the first used the 2sigma limits

---
 misfit/fit/fit_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index fbc399f..2c6eca0 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1071,6 +1071,7 @@ def get_param_posterior_bestfits(fitEmis2D):
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
         mcmc_lims_zip = list(zip(*mcmc_limits))
+        mcmc_lims_zip_2sig = list(zip(*mcmc_limits_2sig))
 
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
             mcmc_peak, mcmc_uncertainties_1sig = \
@@ -1080,10 +1081,9 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_lims_zip = list(zip(*mcmc_limits_2sig))
             mcmc_peak, mcmc_uncertainties_2sig = \
                     utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip,
+                    mcmc_uncertainties_2sig, mcmc_lims_zip_2sig,
                     theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
             fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
-- 
2.43.0


From 581ad34f255ed298c3845547582fef6ec6313174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 14/61] fix: re-analyzing MCMC results appended the derived
 parameters a second time

---
 misfit/fit/fit_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 2c6eca0..cc9b415 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -932,6 +932,10 @@ def add_v_re_22(fitEmis2D):
     Add velocity, dispersion at R_E and r_2.2 (eg, 2.2*r_s, or 2.2/1.67*R_E assuming n=1)
     """
 
+    # Only the free parameters: drop derived columns that were already added before
+    fitEmis2D.sampler_dict['flatchain'] = \
+            fitEmis2D.sampler_dict['flatchain'][:, :fitEmis2D.kinModel.n_free_param]
+
     if fitEmis2D.kinModelOptions.absvalsigma:
         # Take abs of dispersion chain values before continuing
         if fitEmis2D.kinModel.kinProfile.dispProfile.n_params == 1:
-- 
2.43.0


From af6becc98d801d54d116528f996467527bac3e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 15/61] fix: absvalsigma with a fixed dispersion took the
 absolute value of all parameter chains

---
 misfit/fit/fit_core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index cc9b415..ddf7886 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -949,10 +949,11 @@ def add_v_re_22(fitEmis2D):
                 else:
                     free_inds.append(None)
             ind = free_inds[ind_all]
-            fitEmis2D.sampler_dict['flatchain'][:, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
-            fitEmis2D.sampler_dict['chain'][:, :, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
+            if ind is not None:
+                fitEmis2D.sampler_dict['flatchain'][:, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
+                fitEmis2D.sampler_dict['chain'][:, :, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
         else:
             raise ValueError
 
-- 
2.43.0


From df6f4f5db173f20d145052a39e34c5ab6acb695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 16/61] fix: Moffat PSF ignored the dither separation of the
 negative images

---
 misfit/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index 52ba1d3..bff23ec 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -69,7 +69,7 @@ class PSFMoffat(PSFBase):
         beta = self.PSF_beta
         alpha = PSF_FWHM/(2. * np.sqrt(np.power(2., 1./beta) -1))
 
-        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta)
+        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta, yspace_dither_arc=self.yspace_dither_arc)
 
 
 class Instrument(object):
-- 
2.43.0


From 624de5f7a3e5589dc9b984701656ed3593333390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 17/61] fix: trimmed copy of a 2D spectrum kept the untrimmed
 continuum arrays

---
 misfit/general/galaxy_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0574bd0..70d34c5 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -158,6 +158,13 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D_trim.spec_mask = spec2D.spec_mask[:,wh]
                 spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]
 
+                try:
+                    spec2D_trim.flux_incl_cont = spec2D.flux_incl_cont[:,wh]
+                    spec2D_trim.cont_model = spec2D.cont_model[:,wh]
+                except:
+                    spec2D_trim.flux_incl_cont = None
+                    spec2D_trim.cont_model = None
+
                 spec2D_trim.calculate_restwave(galaxy)
             else:
                 spec2D_trim.wave = None
-- 
2.43.0


From 9794cd03daec4cc595df21dfa40df537a0f216a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 18/61] fix: 3D (IFU) model cube could not be created: padding
 was added to the downsampled size

---
 misfit/model/kin_model.py | 47 ++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index b933514..054df64 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -236,8 +236,10 @@ class KinModel2D(object):
                 n_pix_y_whole = galaxy.spec2D.flux.shape[0]
             else:
                 n_pix_y_whole = galaxy.spec2D.shape[0]
-            instrument.slit_width = n_pix_y_whole*instrument.pixscale
-            n_pix_x_whole = n_pix_y_whole
+            #   (leave the input instrument unchanged)
+            instrument = instrument.copy()
+            nSubpixels = self.kinModelOptions.nSubpixels
+            instrument.slit_width = int(n_pix_y_whole*nSubpixels)*(instrument.pixscale/nSubpixels)
 
             self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
                                 theta=self.theta,
@@ -250,6 +252,7 @@ class KinModel2D(object):
                                 do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
                                 absvalsigma=self.kinModelOptions.absvalsigma,
                                 adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
+                                adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
                                 sigma_floor=self.kinModelOptions.sigma_floor,
                                 debug=self.debug)#,
         else:
@@ -257,29 +260,32 @@ class KinModel2D(object):
             #                     kinProfile=self.kinProfile)
             self.aperModel.update_model(theta=self.theta)
 
-        ###################
-        # Do downsampling:
-        # # Save the 2D model to base part of class
+        self.downsample_3D_cube()
+
+    def downsample_3D_cube(self):
+        """
+        Downsample the (PSF convolved) cube to the instrument pixels.
+        Shape: nWave, nY, nX. The padding was already trimmed by aperModel.
+        """
+        nWave = self.aperModel.nWave
+        n_pix_whole = self.aperModel.n_pix_y_whole      # same in x, y
 
-        # Shape: nSpec, nY, nX
-        nWave = len(galaxy.spec2D.wave.copy())
-        # if self.debug:
-        #     print("spec cube conv shape={}".format(self.aperModel.spectra_cube_conv.shape))
-        #     print("n_pix_y_whole={}, padY={}, n_pix_x_whole={}, padX={}".format(n_pix_y_whole,
-        #             self.aperModel.padY, n_pix_x_whole, self.aperModel.padX))
         self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
-                    nWave, n_pix_y_whole+2*self.aperModel.padY, n_pix_x_whole+2*self.aperModel.padX)
+                    nWave, n_pix_whole, n_pix_whole)
 
         if self.debug:
-            # Downsample others too
-            self.I_wide = kfuncs.rebin(self.aperModel.I_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            # Downsample others too, after removing the padding
+            padX, padY = self.aperModel.padX, self.aperModel.padY
+            n_pix_x, n_pix_y = self.aperModel.n_pix_x, self.aperModel.n_pix_y
+
+            self.I_wide = kfuncs.rebin(self.aperModel.I_wide[:,padY:padY+n_pix_y,padX:padX+n_pix_x],
+                        n_pix_whole, n_pix_whole, n_pix_whole)
             #
-            self.V_wide = kfuncs.rebin(self.aperModel.V_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            self.V_wide = kfuncs.rebin(self.aperModel.V_wide[:,padY:padY+n_pix_y,padX:padX+n_pix_x],
+                        n_pix_whole, n_pix_whole, n_pix_whole)
             #
-            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide[:,padY:padY+n_pix_y,padX:padX+n_pix_x],
+                        n_pix_whole, n_pix_whole, n_pix_whole)
 
     def update_3D_int_model(self, theta_fitting=None):
         # For illustrative purposes / toy-model use for mock analysis of IFU data:
@@ -296,8 +302,7 @@ class KinModel2D(object):
         #                         kinProfile=self.aperModel.kinProfile)
         self.aperModel.update_model(theta=self.theta)
 
-        # # Save the 2D model to base part of class
-        self.model_cube = self.aperModel.spectra_cube.copy()
+        self.downsample_3D_cube()
 
     # +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
-- 
2.43.0


From 3d0b1956308829e818f4db782f3f6ea50fba8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 19/61] fix: velocity-space model with zero dispersion used an
 undefined central wavelength

---
 misfit/model/kin_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 9c2cd50..5356f9a 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -124,8 +124,9 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
 
             I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
         else:
-            I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                            nZ, nY, nX, delt_z, delt_wave, lam0)
+            # wave_arr is a velocity array: offset so lam0*(1+V/c) - wave = V - vel
+            I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr+c_kms, nWave,
+                            nZ, nY, nX, delt_z, delt_wave, c_kms)
 
         I_Vxy += I_Vxy_oneline
 
-- 
2.43.0


From 4ce604d41b8914bee8efcfc71e8d0f48217a29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 20/61] fix: rotating 1D aperture model used an off-center PSF
 stamp when offset within the slit

---
 misfit/model/aper_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 32048c9..d34c819 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -270,8 +270,9 @@ class AperModel1DRot(AperModel1DBase):
         # x_arr, y_arr are in *ARCSECONDS*
         xc = np.average(self.x_arr)
         yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        # The stamp must be *CENTERED*, wherever the galaxy lies within the slit
+        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM] - xc
+        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM] - yc
 
         # x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From 093eaff872cf5846f04bda1d38c7e3a9d20a876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 21/61] fix: rotating 1D aperture model with the
 position-wavelength shift could not be calculated

---
 misfit/model/aper_model.py    | 2 +-
 misfit/model/kin_functions.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index d34c819..212d41d 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -431,7 +431,7 @@ class AperModel1DRot(AperModel1DBase):
 
         # Add position offset, if calculating that shift:
         if self.do_position_wave_shift or self.do_inst_res_conv_effective:
-            if (self.delta_position_velspace is None) or (self.inst_disp_wave is None):
+            if (self.delta_position_velspace is None) or (self.inst_disp_vel is None):
                 #################
                 # Exclude the padded regions ????
                 wh_in_slit_x = np.array(range(self.padX,self.n_pix_x+self.padX))
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5356f9a..4cc3ed1 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -366,6 +366,8 @@ def PSF_convolve(spectra_cube, PSF):
 
     if PSF.PSF_FWHM > 0.:
         kern3D = PSF._conv_stamp
+        if kern3D.ndim == 2:
+            kern3D = np.array([kern3D])
 
         spectra_cube_see_conv = fftconvolve(spectra_cube, kern3D, mode='same')
         # Conserve total flux:
-- 
2.43.0


From 6b3aad6e3c6c19469a59cb190598a76a1ef79382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 22/61] fix: one undefined error kept all zero-error samples of
 a 1D spectrum unmasked

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 70d34c5..c2d3cc7 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -717,7 +717,7 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
 
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
-    if (not nonfinite_only) & (np.abs(spec_err).max() > 0.):
+    if (not nonfinite_only) & bool(np.any(np.abs(spec_err) > 0.)):
         wh_missing = np.where(spec_err == 0.)[0]
         spec_mask[wh_missing] = 0.
     # ##########################################################
-- 
2.43.0


From bde1fdb34bed7e8f67a81ac108f39dba490f2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 23/61] fix: explicit 1D line wavelengths or ratios were
 overwritten by the tables if only one was given

---
 misfit/model/emission_lines_model.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index c3617b7..ffa39ac 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -235,14 +235,12 @@ class EmissionLines1DModel(EmissionLines):
             d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
             wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
 
-            wave_arr = []
-            line_ratio_arr = []
-            for linename in self.linenames_arr:
-                wave_arr.append(io.read_restwave(wave_file, linename=linename))
-                line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
-
-            self.restwave_arr = np.array(wave_arr)
-            self.flux_ratio_arr = np.array(line_ratio_arr)
+            if (self.restwave_arr is None):
+                self.restwave_arr = np.array([io.read_restwave(wave_file, linename=linename)
+                                        for linename in self.linenames_arr])
+            if (self.flux_ratio_arr is None):
+                self.flux_ratio_arr = np.array([io.read_line_ratio(wave_file, linename=linename)
+                                        for linename in self.linenames_arr])
 
 
 
-- 
2.43.0


From 682e73fd18595af4eafd5e681eb28645f9858632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 24/61] fix: lines set explicitly for a 2D fit never reached
 the spectrum that is modelled

---
 misfit/fit/fit2D.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index cbf0e84..b264e47 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -236,6 +236,15 @@ class FitEmissionLines2D(object):
                 self.galaxy.spec2D.linenames_arr = self.linenames_arr
             else:
                 self.linenames_arr = self.galaxy.spec2D.linenames_arr
+        elif self.galaxy.spec2D.linenames_arr is None:
+            # Lines set explicitly for the fit
+            self.galaxy.spec2D.linenames_arr = self.linenames_arr
+
+        if (self.restwave_arr is not None) & (self.galaxy.spec2D.restwave_arr is None):
+            self.galaxy.spec2D.restwave_arr = self.restwave_arr
+
+        if (self.flux_ratio_arr is not None) & (self.galaxy.spec2D.flux_ratio_arr is None):
+            self.galaxy.spec2D.flux_ratio_arr = self.flux_ratio_arr
 
         if (self.linenames_arr is not None) & (self.restwave_arr is None):
             if (self.galaxy.spec2D.linenames_arr is not None) & \
-- 
2.43.0


From 5eab9394d28453fca6fd8a0919bb8242f5a1b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 25/61] fix: a model made again for another galaxy, instrument
 or geometry kept the earlier set-up

---
 misfit/model/kin_model.py | 97 ++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 47 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 054df64..d6f98a0 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -175,25 +175,26 @@ class KinModel2D(object):
         self.update_parameters(theta_fitting)
         self.update_profiles()  # Needed to update kinProfile theta values for calculations
 
-        if self.aperModel is None:
-            self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
-                                theta=self.theta,
-                                spec_type = self.spec_type,
-                                kinProfile=self.kinProfile,
-                                intensityProfile=self.intensityProfile,
-                                nSubpixels=self.kinModelOptions.nSubpixels,
-                                pad_factor=self.kinModelOptions.pad_factor,
-                                do_position_wave_shift=self.kinModelOptions.do_position_wave_shift,
-                                do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
-                                absvalsigma=self.kinModelOptions.absvalsigma,
-                                adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
-                                adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
-                                sigma_floor=self.kinModelOptions.sigma_floor)#,
-        else:
-            # self.aperModel.update_model(theta=self.theta,
-            #                     kinProfile=self.kinProfile)
-
-            self.aperModel.update_model(theta=self.theta)
+        # Set up for the given galaxy and instrument, as they are now:
+        if self.aperModel is not None:
+            if galaxy is None:
+                galaxy = self.aperModel.galaxy
+            if instrument is None:
+                instrument = self.aperModel.instrument
+
+        self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
+                            theta=self.theta,
+                            spec_type = self.spec_type,
+                            kinProfile=self.kinProfile,
+                            intensityProfile=self.intensityProfile,
+                            nSubpixels=self.kinModelOptions.nSubpixels,
+                            pad_factor=self.kinModelOptions.pad_factor,
+                            do_position_wave_shift=self.kinModelOptions.do_position_wave_shift,
+                            do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
+                            absvalsigma=self.kinModelOptions.absvalsigma,
+                            adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
+                            adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
+                            sigma_floor=self.kinModelOptions.sigma_floor)#,
 
         # # Save the 2D model to base part of class
         self.model = self.aperModel.model.copy()
@@ -230,35 +231,37 @@ class KinModel2D(object):
         self.update_parameters(theta_fitting)
         self.update_profiles()  # Needed to update kinProfile theta values for calculations
 
-        if self.aperModel is None:
-            # Change the "slit width" to match the y dim for the IFU cube test case:
-            if not galaxy.generate_model:
-                n_pix_y_whole = galaxy.spec2D.flux.shape[0]
-            else:
-                n_pix_y_whole = galaxy.spec2D.shape[0]
-            #   (leave the input instrument unchanged)
-            instrument = instrument.copy()
-            nSubpixels = self.kinModelOptions.nSubpixels
-            instrument.slit_width = int(n_pix_y_whole*nSubpixels)*(instrument.pixscale/nSubpixels)
-
-            self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
-                                theta=self.theta,
-                                spec_type = self.spec_type,
-                                kinProfile=self.kinProfile,
-                                intensityProfile=self.intensityProfile,
-                                nSubpixels=self.kinModelOptions.nSubpixels,
-                                pad_factor=self.kinModelOptions.pad_factor,
-                                do_position_wave_shift=self.kinModelOptions.do_position_wave_shift,
-                                do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
-                                absvalsigma=self.kinModelOptions.absvalsigma,
-                                adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
-                                adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
-                                sigma_floor=self.kinModelOptions.sigma_floor,
-                                debug=self.debug)#,
+        # Set up for the given galaxy and instrument, as they are now:
+        if self.aperModel is not None:
+            if galaxy is None:
+                galaxy = self.aperModel.galaxy
+            if instrument is None:
+                instrument = self.aperModel.instrument
+
+        # Change the "slit width" to match the y dim for the IFU cube test case:
+        if not galaxy.generate_model:
+            n_pix_y_whole = galaxy.spec2D.flux.shape[0]
         else:
-            # self.aperModel.update_model(theta=self.theta,
-            #                     kinProfile=self.kinProfile)
-            self.aperModel.update_model(theta=self.theta)
+            n_pix_y_whole = galaxy.spec2D.shape[0]
+        #   (leave the input instrument unchanged)
+        instrument = instrument.copy()
+        nSubpixels = self.kinModelOptions.nSubpixels
+        instrument.slit_width = int(n_pix_y_whole*nSubpixels)*(instrument.pixscale/nSubpixels)
+
+        self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
+                            theta=self.theta,
+                            spec_type = self.spec_type,
+                            kinProfile=self.kinProfile,
+                            intensityProfile=self.intensityProfile,
+                            nSubpixels=self.kinModelOptions.nSubpixels,
+                            pad_factor=self.kinModelOptions.pad_factor,
+                            do_position_wave_shift=self.kinModelOptions.do_position_wave_shift,
+                            do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
+                            absvalsigma=self.kinModelOptions.absvalsigma,
+                            adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
+                            adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
+                            sigma_floor=self.kinModelOptions.sigma_floor,
+                            debug=self.debug)#,
 
         self.downsample_3D_cube()
 
-- 
2.43.0


From 7c172876cc9333df0c674af40bbbabbc4f462ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 26/61] fix: models of different galaxies sharing an intensity
 profile used each other's light distribution

---
 misfit/model/aper_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 212d41d..c2bbb32 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -764,6 +764,8 @@ class AperModel2D(object):
         self.delt_wave = np.average(self.wave_arr[1:]-self.wave_arr[:-1])
 
 
+        # The profile may be shared: use the values of *this* galaxy
+        self.intensityProfile.update_values(self.galaxy)
         self.I_wide  = self.intensityProfile.int(self.r, self.zint)
         # Shape nWave, nZ, nY, nX
         self.I_matrix = np.tile(self.I_wide, (self.nWave,1,1,1))
-- 
2.43.0


From abbb41f08febf0d72734264075c2c7a7a8393329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:59 +0000
Subject: [PATCH 27/61] fix: models computed on the temporary finer wavelength
 grid were brighter by the upsampling factor

---
 misfit/model/aper_model.py | 4 +++-
 misfit/model/kin_model.py  | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index c2bbb32..a2791de 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -909,8 +909,10 @@ class AperModel2D(object):
 
 
     def downsample_to_real_wave(self):
+        # The model is a flux density: average (do not sum) the finer samples
         self.model_out = kfuncs.rebin(self.model_out,
-                            self.nWave_real, self.n_pix_y_whole)
+                            self.nWave_real, self.n_pix_y_whole) * \
+                            (self.nWave_real/float(self.nWave))
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index d6f98a0..d09c857 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -273,8 +273,10 @@ class KinModel2D(object):
         nWave = self.aperModel.nWave
         n_pix_whole = self.aperModel.n_pix_y_whole      # same in x, y
 
-        self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
-                    nWave, n_pix_whole, n_pix_whole)
+        # The cube is a flux density in wavelength: average any finer wavelength samples
+        cube = self.aperModel.spectra_cube_conv
+        self.model_cube = kfuncs.rebin(cube.copy(),
+                    nWave, n_pix_whole, n_pix_whole) * (nWave/float(cube.shape[0]))
 
         if self.debug:
             # Downsample others too, after removing the padding
-- 
2.43.0


From abd9b9efc48ec6155126bc57bfe21c88ea57955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:12 +0000
Subject: [PATCH 28/61] fix: lines without dispersion were not in the flux
 density units of broadened lines

---
 misfit/model/kin_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 4cc3ed1..77ca5a4 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -160,7 +160,8 @@ def I_simple_collapse(I_wide, V_wide, wave_arr,
 
                 # Force it all into the closest pixel:
                 wh_closest = np.argmin(lam_diff)
-                I_Vxy[wh_closest,j,k] += I*delt_z
+                # Per unit wavelength (or velocity), as for non-zero sigma:
+                I_Vxy[wh_closest,j,k] += I*delt_z/delt_wave
 
 
     return I_Vxy
-- 
2.43.0


From f28a331b5e545b2810b8e38e3d1002645423cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:18 +0000
Subject: [PATCH 29/61] fix: KinModel2D.scale_model ignores masked samples

---
 misfit/model/kin_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index d09c857..0779ee5 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -152,9 +152,11 @@ class KinModel2D(object):
         # Use the galaxy spectrum to scale the model:
         wh_no_sky = galaxy.spec2D.wh_nosky.copy()
 
-        num_arr = np.sum(galaxy.spec2D.flux[:,wh_no_sky]*self.model[:,wh_no_sky]/\
+        mask = galaxy.spec2D.spec_mask[:,wh_no_sky]
+
+        num_arr = np.sum(mask*galaxy.spec2D.flux[:,wh_no_sky]*self.model[:,wh_no_sky]/\
                             galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
-        den_arr = np.sum(self.model[:,wh_no_sky]**2/galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
+        den_arr = np.sum(mask*self.model[:,wh_no_sky]**2/galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
 
         num_arr[~np.isfinite(num_arr)] = 0.
         num_arr[np.abs(den_arr) == 0.] = 0.
-- 
2.43.0


From f59be40b05a4b1da2e2ff2f4886c852373ba1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:18 +0000
Subject: [PATCH 30/61] fix: aperture dispersion uses the model's own profile
 slope d

---
 misfit/model/kin_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 77ca5a4..860d349 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -601,7 +601,7 @@ def sigma_aper_dispersion(aperModel1DDisp = None, re_arcsec=None, re_mass_arcsec
     # re_arcsec should already be circularized -- use q=1.
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=1., delt_PA=0., re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    r_core=aperModel1DDisp.r_core, d=aperModel1DDisp.d)
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full, re_arcsec=re_arcsec,
                         n=aperModel1DDisp.galaxy.n, q=1., delt_PA=0.,r_core=aperModel1DDisp.r_core)
@@ -684,7 +684,7 @@ def sigma_aper_dispersion_misalign(aperModel1DDisp = None,
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=aperModel1DDisp.galaxy.q, delt_PA=aperModel1DDisp.galaxy.delt_PA,
                     re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    r_core=aperModel1DDisp.r_core, d=aperModel1DDisp.d)
 
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
@@ -999,13 +999,13 @@ def sigma_aper_dispersion_misalign_ORIG(aperModel1DDisp = None, re_arcsec=None,
 
 #@jit
 @njit
-def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None):
+def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None, d=-0.089):
 
     r = r_int_ellip(x, y, q, delt_PA)
 
     # r is relative to r_circularized for that given ellipse -- use re_circ.
     # INPUT RE_CIRC!
-    sigma_val = sigma_profile(r, re_mass_arcsec, r_core=r_core)
+    sigma_val = sigma_profile(r, re_mass_arcsec, d=d, r_core=r_core)
 
     return sigma_val**2
 
-- 
2.43.0


From db81626c757d21611ee98b57db574ce10635ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:18 +0000
Subject: [PATCH 31/61] fix: AperModel1DRot seeing stamp stays symmetric when
 its ends lie at exactly the FWHM

---
 misfit/model/aper_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index a2791de..36a5863 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -270,9 +270,11 @@ class AperModel1DRot(AperModel1DBase):
         # x_arr, y_arr are in *ARCSECONDS*
         xc = np.average(self.x_arr)
         yc = np.average(self.y_arr)
-        # The stamp must be *CENTERED*, wherever the galaxy lies within the slit
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM] - xc
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM] - yc
+        # The stamp must be *CENTERED*, wherever the galaxy lies within the slit,
+        #   and *SYMMETRIC*, also if its ends lie exactly (to rounding) at +-FWHM
+        half_width = self.instrument.PSF.PSF_FWHM * (1.+1.e-9)
+        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= half_width] - xc
+        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= half_width] - yc
 
         # x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
-- 
2.43.0


From 6464c50cd26dbe5fae5c65f3c50e92dd1ab33d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:44 +0000
Subject: [PATCH 32/61] fix: no 'no convergence' caution when the chain
 converged on the last allowed step

---
 misfit/fit/fit_core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index ddf7886..598596a 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -376,6 +376,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
 
         # --------------------------------
         # Run sampler: output info at each step
+        converged = False
         for ii in range(fitEmis2D.mcmcOptions.nSteps):
             pos_cur = pos.copy()    # copy just in case things are set strangely
 
@@ -418,13 +419,14 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
                         f_log.write(" Enforced min step limit: {}.".format(ii+1))
                     if ii >= acor_force_min:
                         f_log.write(" Finishing calculations early at step {}.".format(ii+1))
+                        converged = True
                         break
 
 
         # --------------------------------
         # Check if it converged before the max number of steps
         finishedSteps= ii+1
-        if (finishedSteps == fitEmis2D.mcmcOptions.nSteps) & \
+        if (not converged) & (finishedSteps == fitEmis2D.mcmcOptions.nSteps) & \
             ( (fitEmis2D.mcmcOptions.minAF is not None) & \
                 (fitEmis2D.mcmcOptions.maxAF is not None) & \
                 (fitEmis2D.mcmcOptions.nEff is not None) ) & \
@@ -705,6 +707,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
         # --------------------------------
         # Run sampler: output info at each step
+        converged = False
         for ii in range(fitEmis2D.mcmcOptions.nSteps):
             # --------------------------------
             # Only do one step at a time.
@@ -745,13 +748,14 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
                         f_log.write(" Enforced min step limit: {}.".format(ii+1))
                     if ii >= acor_force_min:
                         f_log.write(" Finishing calculations early at step {}.".format(ii+1))
+                        converged = True
                         break
 
 
         # --------------------------------
         # Check if it converged before the max number of steps
         finishedSteps= ii+1
-        if (finishedSteps == fitEmis2D.mcmcOptions.nSteps) & \
+        if (not converged) & (finishedSteps == fitEmis2D.mcmcOptions.nSteps) & \
             ( (fitEmis2D.mcmcOptions.minAF is not None) & \
                 (fitEmis2D.mcmcOptions.maxAF is not None) & \
                 (fitEmis2D.mcmcOptions.nEff is not None) ) & \
-- 
2.43.0


From 451476f73d95df2cf493376d60e36f0d79f16008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:53 +0000
Subject: [PATCH 33/61] fix: sampling without an HDF file keeps the chains in
 memory instead of failing

---
 misfit/fit/fit_core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 598596a..0242527 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -537,8 +537,12 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
     moves = emcee.moves.StretchMove(a=fitEmis2D.mcmcOptions.scale_param_a)
 
-    backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
-                                             name="burnin_mcmc")
+    # The output file is optional: otherwise keep the chains in memory
+    if fitEmis2D.mcmcOptions.filename_sampler_h5 is not None:
+        backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
+                                                 name="burnin_mcmc")
+    else:
+        backend_burn = emcee.backends.Backend()
 
     if fitEmis2D.mcmcOptions.overwrite:
         backend_burn.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
@@ -686,7 +690,10 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
         # Setup sampler:
         # --------------------------------
         # Start backend:
-        backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        if fitEmis2D.mcmcOptions.filename_sampler_h5 is not None:
+            backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        else:
+            backend = emcee.backends.Backend()
 
         if fitEmis2D.mcmcOptions.overwrite:
             backend.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
-- 
2.43.0


From 8eb66ddf3790705ecb2a11a43933268388cb014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:46 +0000
Subject: [PATCH 34/61] fix: analysing a sampled chain raised, as one-element
 arrays no longer convert to scalars

---
 misfit/general/general_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 5fcf554..7f366b0 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -210,7 +210,7 @@ def find_peak_gaussian_KDE(flatchain, initval):
         peakvals = np.zeros(nparams)
         for i in range(nparams):
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
+            peakvals[i] = fmin(lambda x: -kern(x)[0], initval[i], disp=False)[0]
         return peakvals
     else:
         neg_kernel = gaussian_KDE_kernel_func(flatchain)
@@ -226,7 +226,7 @@ def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
 
     nparams = len(linked_inds)
     kern = gaussian_kde(flatchain[:,linked_inds].T)
-    peakvals = fmin(lambda x: -kern(x), initval, disp=False)
+    peakvals = fmin(lambda x: -kern(x)[0], initval, disp=False)
 
     return peakvals
 
-- 
2.43.0


From 30f030c326f9feddee120e0d7e338dd202920b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:24 +0000
Subject: [PATCH 35/61] fix: analysing a chain with fixed velocity or
 dispersion parameters raised LinAlgError for the constant derived values

---
 misfit/general/general_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 7f366b0..c460a34 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -209,6 +209,10 @@ def find_peak_gaussian_KDE(flatchain, initval):
     if nparams > 1:
         peakvals = np.zeros(nparams)
         for i in range(nparams):
+            if np.ptp(flatchain[:,i]) == 0.:
+                # Constant, eg the dispersion at R_E if it was held fixed
+                peakvals[i] = flatchain[0,i]
+                continue
             kern = gaussian_kde(flatchain[:,i])
             peakvals[i] = fmin(lambda x: -kern(x)[0], initval[i], disp=False)[0]
         return peakvals
-- 
2.43.0


From d6c47092b001c1d9f3c8813af94543f80cf9f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:07 +0000
Subject: [PATCH 36/61] fix: a fit restored from its saved results could not be
 saved again

---
 misfit/fit/fit2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index b264e47..30e3a3c 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -444,7 +444,7 @@ class FitEmissionLines2D(object):
 
 
         # Clean up a few things:
-        del fitEmis2DResults.galaxy.pstamp
+        fitEmis2DResults.galaxy.pstamp = None
         if 'spec_hdr' in fitEmis2DResults.galaxy.spec2D.__dict__.keys():
             del fitEmis2DResults.galaxy.spec2D.spec_hdr
 
-- 
2.43.0


From 049cf9fa530936df473261b9ac749e034545d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:16 +0000
Subject: [PATCH 37/61] fix: 1D fits left the redshift at its starting value in
 the middle of its bounds

---
 misfit/fit/fit1D.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 0309e1b..3954117 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -203,12 +203,23 @@ class FitEmissionLines1D(object):
         self.galaxy.spec1D_trim.mask_edges()
 
     #
+    def get_z_init(self):
+        """
+        Starting value of the redshift, slightly off the center of its fit range:
+        at the center the bounded parameter is only ~1e-14 internally in LMFIT,
+        so the relative steps of the minimization would not change the redshift.
+        """
+        del_z = self.del_obs_lam/self.restwave_arr[0][0]
+        if np.abs(self.z - self.galaxy.z) < 1.e-3*del_z:
+            return self.galaxy.z + 1.e-3*del_z
+        return self.z
+
     def make_params(self, flux_bound=False, vel_disp_bound=False):
         """
         Initialize the LMFIT fitting parameters class with values and fit ranges.
         """
         params = lmfit.Parameters()
-        params.add('z', value=self.z, min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
+        params.add('z', value=self.get_z_init(), min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
                     max=self.galaxy.z+self.del_obs_lam/self.restwave_arr[0][0])
 
         if vel_disp_bound:
@@ -449,7 +460,7 @@ class FitEmissionLines1D(object):
                     spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals
 
                     params_best = lmfit.Parameters()
-                    params_best.add('z', value=self.z, min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
+                    params_best.add('z', value=self.get_z_init(), min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
                                 max=self.galaxy.z+self.del_obs_lam/self.restwave_arr[0][0])
                     params_best.add('vel_disp', value=self.vel_disp)#, min=0.)
                     if fix_z:
-- 
2.43.0


From 0c3880e3fe44aa79e0a5ce40ba070f20ed3554e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:20 +0000
Subject: [PATCH 38/61] fix: mock slits of a whole number of pixels got one row
 more from rounding

---
 misfit/mock/generate_basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 140ad78..bb73d18 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -73,10 +73,12 @@ def generate_mock_basis(z=None,
                     no_continuum_subtraction=True,
                     spec_type=spec_type)
 
-    spec2D.shape = [ int(np.ceil(instrument.slit_length/instrument.pixscale)), nwave]
+    # Number of rows: rounding errors of the division must not add another one
+    nrows = int(np.ceil(np.round(instrument.slit_length/instrument.pixscale, 8)))
+    spec2D.shape = [nrows, nwave]
     if spec_type == 'wave':
         spec2D.initialize_lineset()
-    spec2D.m0 = np.ceil(instrument.slit_length/instrument.pixscale)/2. - 0.5
+    spec2D.m0 = nrows/2. - 0.5
     spec2D.ypos = spec2D.m0
     galaxy.set_spectrum_2D(spec2D)
 
-- 
2.43.0


From afa998ee6eed329b6cf2b64aa0195242bebc41a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:15 +0000
Subject: [PATCH 39/61] fix: the corner plot of a 2D fit asked for titles of
 four quantiles and always failed

---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 7e189e2..b2811c3 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -47,7 +47,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
                             plot_datapoints=False,
-                            show_titles=True,
+                            show_titles=False,
                             bins=40,
                             plot_contours=True,
                             verbose=verbose)
-- 
2.43.0


From 604ba7a5a71f012110148a6ef824a76691e1ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:15 +0000
Subject: [PATCH 40/61] fix: the corner plot failed if a column has the same
 value in all samples

---
 misfit/plot/plot_mcmc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index b2811c3..b3c4873 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -43,9 +43,18 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
     samples = fitEmis2D.sampler_dict['flatchain'][:,:-2]
 
 
+    # Columns that do not vary (eg, all parameters of V(R_E) are fixed) have no range of their own
+    ranges = []
+    for col in samples.T:
+        if col.max() > col.min():
+            ranges.append((col.min(), col.max()))
+        else:
+            ranges.append((col[0]-0.5, col[0]+0.5))
+
     fig = corner.corner(samples, labels=fitEmis2D.mcmc_results.theta_names_nice,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
+                            range=ranges,
                             plot_datapoints=False,
                             show_titles=False,
                             bins=40,
-- 
2.43.0


From 2a28aa2426e7e74ebe3239865542c6143702e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:15 +0000
Subject: [PATCH 41/61] fix: the corner plot failed if sigma0 is not a free
 parameter

---
 misfit/plot/plot_mcmc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index b3c4873..9d9cc54 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -156,7 +156,12 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             ha='left', va='bottom')
 
     # Annotate sigma
-    wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0][0]
+    sig_names = np.array(fitEmis2D.mcmc_results.theta_names)
+    if 'sigma0' in sig_names:
+        wh_sig = np.where(sig_names == 'sigma0')[0][0]
+    else:
+        # sigma0 is fixed, or the dispersion profile has other parameters
+        wh_sig = np.where(sig_names == 'sigma_RE')[0][0]
     val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
     lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
     upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
-- 
2.43.0


From 38d07c9a166ddc95421097a7bee39d74e9c1a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 42/61] fix: the corner plot failed for linked sets of one
 parameter, or 'all'

---
 misfit/plot/plot_mcmc.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 9d9cc54..fdb96b4 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -91,9 +91,15 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
     # If linked results:
     if (fitEmis2D.theta_linked_posteriors is not None) & (showLinked):
-        for j in range(len(fitEmis2D.theta_linked_posteriors)):
-            ind = fitEmis2D.theta_linked_posteriors[j][0] + fitEmis2D.theta_linked_posteriors[j][1]*\
-                    samples.shape[1]
+        for linked in fitEmis2D.theta_linked_posteriors:
+            if isinstance(linked, str):
+                # All free parameters are linked
+                linked = range(fitEmis2D.kinModel.n_free_param)
+            if len(linked) < 2:
+                # No pair, so no curve
+                continue
+
+            ind = linked[0] + linked[1]*samples.shape[1]
 
             xlim = axes[ind].get_xlim()
             ylim = axes[ind].get_ylim()
@@ -109,8 +115,8 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
             theta_orig = fitEmis2D.kinModel.kinProfile.theta.copy()
             len_tmp = len(col2arr)
             for i in range(len(fitEmis2D.kinModel.kinProfile.theta)):
-                if i in fitEmis2D.theta_linked_posteriors[j]:
-                    if i == fitEmis2D.theta_linked_posteriors[j][0]:
+                if i in linked:
+                    if i == linked[0]:
                         theta_tmp = np.array([np.ones(len_tmp)])
                     else:
                         # The fixed dimension:
-- 
2.43.0


From a3c01a61d89d6da138eaed4fe481b9e932bece9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 43/61] fix: linked curves of the corner plot took indices of
 free parameters as indices of all parameters

---
 misfit/plot/plot_mcmc.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index fdb96b4..7bf0115 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -111,25 +111,26 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
             vre_best = truths[-2]
             v22_best = truths[-1]
 
+            # Linked sets hold indices of the free parameters:
+            free_inds = np.where(fitEmis2D.kinModel.theta_vary)[0]
+            ind_col1, ind_col2 = free_inds[linked[0]], free_inds[linked[1]]
+
             ###
             theta_orig = fitEmis2D.kinModel.kinProfile.theta.copy()
             len_tmp = len(col2arr)
             for i in range(len(fitEmis2D.kinModel.kinProfile.theta)):
-                if i in linked:
-                    if i == linked[0]:
-                        theta_tmp = np.array([np.ones(len_tmp)])
+                if i in [ind_col1, ind_col2]:
+                    if i == ind_col1:
+                        col_tmp = np.ones(len_tmp)
                     else:
                         # The fixed dimension:
-                        theta_tmp = np.append(theta_tmp,
-                                    np.array([col2arr]), axis=0)
+                        col_tmp = col2arr
                 else:
-                    if i > 0:
-                        theta_tmp = np.append(theta_tmp,
-                                    np.array([np.repeat(fitEmis2D.kinModel.bestfit.theta[i],
-                                            len_tmp)]), axis=0)
-                    else:
-                        theta_tmp = np.array([np.repeat(fitEmis2D.kinModel.bestfit.theta[i],
-                                    len_tmp)])
+                    col_tmp = np.repeat(fitEmis2D.kinModel.bestfit.theta[i], len_tmp)
+                if i > 0:
+                    theta_tmp = np.append(theta_tmp, np.array([col_tmp]), axis=0)
+                else:
+                    theta_tmp = np.array([col_tmp])
 
             fitEmis2D.kinProfile.update_theta(theta_tmp)
 
-- 
2.43.0


From 733a6fb8afe36773b805e63fb16fa76d4392e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 44/61] fix: linked curves of the corner plot were not at the
 radius of V_RE and V_22

---
 misfit/plot/plot_mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 7bf0115..70804e3 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -134,8 +134,8 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
             fitEmis2D.kinProfile.update_theta(theta_tmp)
 
-            V_re_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(fitEmis2D.galaxy.re_arcsec, 0.)
-            V_22_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_arcsec, 0.)
+            V_re_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(fitEmis2D.galaxy.re_mass_arcsec, 0.)
+            V_22_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_mass_arcsec, 0.)
 
 
             fitEmis2D.kinProfile.theta = theta_orig
-- 
2.43.0


From 3cfc8dad38308da920ecdb541afca16b9e19c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 45/61] fix: linked curves of the corner plot of a restored fit
 were those of its previous parameters

---
 misfit/plot/plot_mcmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 70804e3..701d1ee 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -132,14 +132,14 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                 else:
                     theta_tmp = np.array([col_tmp])
 
-            fitEmis2D.kinProfile.update_theta(theta_tmp)
+            fitEmis2D.kinModel.kinProfile.update_theta(theta_tmp)
 
             V_re_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(fitEmis2D.galaxy.re_mass_arcsec, 0.)
             V_22_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_mass_arcsec, 0.)
 
 
-            fitEmis2D.kinProfile.theta = theta_orig
-            fitEmis2D.kinProfile.update_theta(theta_orig)
+            fitEmis2D.kinModel.kinProfile.theta = theta_orig
+            fitEmis2D.kinModel.kinProfile.update_theta(theta_orig)
 
             #This only works if col1 variable is multiplicative only on the velProfile.
             col1arr_re = vre_best/V_re_arr_dummy
-- 
2.43.0


From b9c08df95bdde366f6ab74727f760fc0897f6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 46/61] fix: the data of a fit without a model could not be
 plotted

---
 misfit/plot/plot_bestfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index e5ded5f..5a3e3d5 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -76,7 +76,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
 
     #
     # Pstamp + slit plot, image convolved to spectrum resolution:
-    if fitEmis2D.kinModel.bestfit is not None:
+    if (fitEmis2D.kinModel is not None) and (fitEmis2D.kinModel.bestfit is not None):
         m0shift = fitEmis2D.kinModel.bestfit.theta[-2]
     else:
         m0shift = 0.
-- 
2.43.0


From f052ff9afc594f905f1d3f3e7980608ee3ae08bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 47/61] fix: the best-fit plot failed if the masks of the
 spectrum were not calculated

---
 misfit/plot/plot_bestfit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index 5a3e3d5..801d6b7 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -103,7 +103,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     int_mode = "nearest"  # 'None'
 
     # IGNORE SKYLINES for scaling!
-    if len(fitEmis2D.galaxy.spec2D.wh_nosky) > 0:
+    if (fitEmis2D.galaxy.spec2D.wh_nosky is not None) and (len(fitEmis2D.galaxy.spec2D.wh_nosky) > 0):
         vmin = fitEmis2D.galaxy.spec2D.flux[:,fitEmis2D.galaxy.spec2D.wh_nosky].min()
         vmax = fitEmis2D.galaxy.spec2D.flux[:,fitEmis2D.galaxy.spec2D.wh_nosky].max()
     else:
@@ -191,7 +191,10 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     ## Alternate: use continuous to only draw lines bounding cont regions.
     row_color = 'yellow'
     ls = '--'
-    wh_cont = utils.wh_continuous(fitEmis2D.galaxy.spec2D.low_snr_row_inds)
+    if fitEmis2D.galaxy.spec2D.low_snr_row_inds is not None:
+        wh_cont = utils.wh_continuous(fitEmis2D.galaxy.spec2D.low_snr_row_inds)
+    else:
+        wh_cont = []
     for wh in wh_cont:
         low = np.min(wh)
         hi = np.max(wh)
@@ -251,7 +254,10 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     ## Alternate: use continuous to only draw lines bounding cont regions.
     column_color = 'yellow'
     ls = '--'
-    wh_cont = utils.wh_continuous(fitEmis2D.galaxy.spec2D.wh_sky_fit)
+    if fitEmis2D.galaxy.spec2D.wh_sky_fit is not None:
+        wh_cont = utils.wh_continuous(fitEmis2D.galaxy.spec2D.wh_sky_fit)
+    else:
+        wh_cont = []
     for wh in wh_cont:
         low = np.min(wh)
         hi = np.max(wh)
-- 
2.43.0


From 25f86910333531c4af35919d1765464add10de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 48/61] fix: the best-fit plot failed if columns are masked for
 the fit

---
 misfit/plot/plot_bestfit.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index 801d6b7..c9ef91c 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -267,7 +267,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
             if fitEmis2D.kinModel is not None:
                 axes[3].axvline(x=low, ls=ls, color=column_color)
                 axes[4].axvline(x=low, ls=ls, color=column_color)
-        if hi != n_sp-1:
+        if hi != n_wave-1:
             hi += 0.5 # top of pixel
             axes[2].axvline(x=hi, ls=ls, color=column_color)
             if fitEmis2D.kinModel is not None:
@@ -282,27 +282,25 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     hatch_pattern = '//'
     lw_edge_hatch = 0
     for wh in wh_cont:
-        if len(wh_cont) == 1:
-            wh_cont = [wh_cont[0], wh_cont[0]]
-        axes[2].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                        [n_wave-pad, wh_cont[0]-pad],
-                        [n_wave-pad, wh_cont[-1]+1-pad],
-                        [-pad, wh_cont[-1]+1-pad]],
+        axes[2].add_patch(Polygon([[wh[0]-pad, -pad],
+                        [wh[-1]+1-pad, -pad],
+                        [wh[-1]+1-pad, n_sp-pad],
+                        [wh[0]-pad, n_sp-pad]],
                         closed=True,
                         lw=lw_edge_hatch,
                         fill=False, color = color_hatch))
         if fitEmis2D.kinModel is not None:
-            axes[3].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[-1]+1-pad],
-                            [-pad, wh_cont[-1]+1-pad]],
+            axes[3].add_patch(Polygon([[wh[0]-pad, -pad],
+                            [wh[-1]+1-pad, -pad],
+                            [wh[-1]+1-pad, n_sp-pad],
+                            [wh[0]-pad, n_sp-pad]],
                             closed=True,
                             lw=lw_edge_hatch,
                             fill=False, hatch=hatch_pattern, color=color_hatch))
-            axes[4].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[-1]+1-pad],
-                            [-pad, wh_cont[-1]+1-pad]],
+            axes[4].add_patch(Polygon([[wh[0]-pad, -pad],
+                            [wh[-1]+1-pad, -pad],
+                            [wh[-1]+1-pad, n_sp-pad],
+                            [wh[0]-pad, n_sp-pad]],
                             closed=True,
                             lw=lw_edge_hatch,
                             fill=False, hatch=hatch_pattern, color=color_hatch))
-- 
2.43.0


From 8fd8036b1c1824eb88f29adab3c7b1797fb30742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:19 +0000
Subject: [PATCH 49/61] fix: the corner plot with usetex could not be drawn
 without LaTeX

---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 701d1ee..d39a9ee 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -155,7 +155,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
     # Annotate R_E, n
     if usetex:
-        galparam_str = r'$n=%0.2f$, $R_E=%0.2f "$' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
+        galparam_str = r'$n=%0.2f$, $R_E=%0.2f$ "' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     else:
         galparam_str = r'n=%0.2f, RE=%0.2f "' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     fig.gca().annotate(galparam_str, (0.01, 0.), xycoords='figure fraction',
-- 
2.43.0


From d11f69881fea1eba3e892e93d5c2a6723d06d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 50/61] fix: the image with the slit could not be drawn
 (arguments matplotlib no longer takes)

---
 misfit/plot/plot_image_slit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 0fd1f63..bc78e8c 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -374,7 +374,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             ############
             # Information in sub-title:
             if external_ax is False:
-                ax.annotate(s=s, xy=[.5, 0.05], xycoords='figure fraction',
+                ax.annotate(s, xy=[.5, 0.05], xycoords='figure fraction',
                             ha='center', va='bottom')
             if verbose:
                 print("% misfit.plot.plot_image_slit:")
@@ -404,7 +404,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
             # Plot ellipse:
             ell = Ellipse((x0_gal,y0_gal), 2.*semi_minor/pscale,
-                            2.*semi_major/pscale, galfit_angle,
+                            2.*semi_major/pscale, angle=galfit_angle,
                             ec='blue', fc='none', fill=False, zorder=11)
 
             ####################################
-- 
2.43.0


From 22cc282fc3a89828c714b5b5aa1bc7949370dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 51/61] fix: the image with the slit could not be drawn with
 show_galfit=False

---
 misfit/plot/plot_image_slit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index bc78e8c..5ddae4e 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -105,6 +105,8 @@ def plot_image_slit(galaxy=None, instrument=None,
         x0_galfit, y0_galfit = w.wcs_world2pix(galaxy.sersicRA, galaxy.sersicDEC, originWCS)
         x0_galfit -= 1. # Convert to np pixel coords
         y0_galfit -= 1. # Convert to np pixel coords
+    else:
+        x0_galfit, y0_galfit = x0WCS_sci.copy(), y0WCS_sci.copy()
 
     # x is column, y is row: arrays are row, column
     cent_pix= np.array([(np.shape(galaxy.pstamp.pstamp)[1]-1)/2.,
-- 
2.43.0


From 46e05c0da5b40d091836b2dae8f93db4c3af58a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 52/61] fix: the image with the slit could not be drawn with
 verbose=True

---
 misfit/plot/plot_image_slit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 5ddae4e..552bcd5 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -177,7 +177,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
         if verbose:
             #print "yarc_orig=", yarc_orig
-            print("yarc_new={:0.3f}".format(yarc_new) )
+            print("yarc_new={}".format(yarc_new) )
 
         #!!!!!!!!!!!!!!!!!!!!!!!
 
@@ -245,7 +245,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         y_off_mid = (y0_gal-ylim[0]) - (m0+0.5)*instrument.pixscale/pscale
         ylim += y_off_mid
         if verbose:
-            print("(y0_gal-ylim[0]) - (m0+0.5)={:0.3f}".format( (y0_gal-ylim[0]) - (m0+0.5) ) )
+            print("(y0_gal-ylim[0]) - (m0+0.5)={}".format( (y0_gal-ylim[0]) - (m0+0.5) ) )
     #
     if verbose:
         print("ylim = {}".format(ylim) )
-- 
2.43.0


From 432563f3a8418f5f51814a85060d32ad23499c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 53/61] fix: the image could not be downsampled unless a row of
 the spectrum is given for its center

---
 misfit/plot/plot_image_slit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 552bcd5..11aba9d 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -170,7 +170,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         ### New:
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
         # Center on m0:
-        ycent = m0
+        ycent = m0 if m0 is not None else (n_round-1)/2.
 
         yarr_new -= ycent
         yarc_new = yarr_new*instrument.pixscale
-- 
2.43.0


From 93690b165744a5b219a8ac364f1106134913e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 54/61] fix: the slit was drawn with its offset in pixels of
 the spectrum on an image of other pixels, and not at all without a 2D
 spectrum

---
 misfit/plot/plot_image_slit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 11aba9d..29a49dc 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -300,7 +300,11 @@ def plot_image_slit(galaxy=None, instrument=None,
             slit_angle = galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA
 
     # Offset in slit coords -- pixels
-    y0_off = galaxy.spec2D.yoffset/instrument.pixscale
+    try:
+        y0_off = galaxy.spec2D.yoffset/pscale
+    except AttributeError:
+        # No 2D spectrum
+        y0_off = 0.
 
     ##############
     # Corner coords: slit rectangle
-- 
2.43.0


From a3bc1c4c6170c0b4a681ae8ce8a9fceb57d452e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 55/61] fix: the image was scaled by the wrong pixels or left
 blank if the view extends beyond it

---
 misfit/plot/plot_image_slit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 29a49dc..cefd4fa 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -255,6 +255,10 @@ def plot_image_slit(galaxy=None, instrument=None,
     xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
     ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
+    # The view can extend beyond the image:
+    xlim_round = np.maximum(xlim_round, 0)
+    ylim_round = np.maximum(ylim_round, 0)
+
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
     range_spec = tmp_trim[np.isfinite(tmp_trim)].copy()
-- 
2.43.0


From a2cec1a54dc7722ce18864ffaabd449494f5d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 56/61] fix: box integration counted pixels ending at the new
 ones' edges twice, and outside or within a single pixel was wrong

---
 misfit/plot/plot_image_slit.py | 40 +++++-----------------------------
 1 file changed, 6 insertions(+), 34 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index cefd4fa..8b51925 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -515,43 +515,15 @@ def box_integrate(x, y, x_new, debug=False):
         # Initialize integrated value:
         int_y = 0.
 
-        try:
-            # Pixels wholly contained within the new range:
-            c_l = np.where(x_low >= low)[0]
-            c_r = np.where(x_high <= high)[0]
-            ind_c = np.array(list(set(c_l) & set(c_r)))
-            ind_c.sort()
-
-            int_y += np.sum(y[ind_c])*delt_x
-        except:
-            ind_c = 'None'
-
-
-        # For outside edges: wrap in try..except
-        #   to cover case of x_new extending further than
-        #   original x -- the missing data will implicitly be zero.
-        try:
-            # Find element of x_low just lower than low
-            ind_l = np.where(x_low <= low)[0].max()
-            # range corresponding to this interval:
-            # (x_high[ind_l] - low)
+        # Part of each pixel within the new range. If x_new extends further
+        #   than original x, the missing data will implicitly be zero.
+        overlap = np.minimum(x_high, high) - np.maximum(x_low, low)
+        ind = np.where(overlap > 0.)[0]
 
-            int_y += y[ind_l]*(x_high[ind_l]-low)
-        except:
-            ind_l = 'None'
-
-        try:
-            # find element of x_high just higher than high
-            ind_r = np.where(x_high >= high)[0].min()
-            # range corresponding to this interval:
-            # (high - x_low[ind_r])
-
-            int_y += y[ind_r]*(high-x_low[ind_r])
-        except:
-            ind_r = 'None'
+        int_y += np.sum(y[ind]*overlap[ind])
 
         if debug:
-            print("indicies = {:d} {:d} {:d}".format(ind_l, ind_c, ind_r) )
+            print("indices = {}".format(ind) )
 
 
         y_new[i] = int_y/delt_x_new
-- 
2.43.0


From b78b1c90470ca42fe8804e293c869567457d12b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 57/61] fix: convolving the image shifted it if the galaxy is
 not at its center

---
 misfit/plot/plot_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 88b415c..03c3ea8 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -215,8 +215,9 @@ def convolve_rot_gal(galaxy=None, instrument=None, instrument_img=None,
                 endpoint=False)
     #cent = [y0_rot, x0_rot]
 
-    xoff = x - x0_rot
-    yoff = y - y0_rot
+    # Center the stamp where fftconvolve has its origin, so nothing is shifted:
+    xoff = x - (np.shape(pstamp_rot)[1]-1)//2
+    yoff = y - (np.shape(pstamp_rot)[0]-1)//2
     xoffarc = xoff * instrument_img.pixscale
     yoffarc = yoff * instrument_img.pixscale
 
-- 
2.43.0


From b890091f56a177fe74ab41b4ec5fbb2e1c1f06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 58/61] fix: the convolved image was scaled by rounding errors
 if the seeing has negative images

---
 misfit/plot/plot_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 03c3ea8..040d786 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -5,6 +5,8 @@
 from __future__ import print_function
 
 # import pandas as pd
+import copy
+
 import numpy as np
 # import scipy as _sp
 
@@ -223,7 +225,11 @@ def convolve_rot_gal(galaxy=None, instrument=None, instrument_img=None,
 
 
     #
-    conv_stamp = instrument.PSF.generate_conv_stamp(xoffarc, yoffarc,
+    # Without negative images: the convolved image is scaled by its total
+    PSF = copy.copy(instrument.PSF)
+    PSF.yspace_dither_arc = None
+
+    conv_stamp = PSF.generate_conv_stamp(xoffarc, yoffarc,
                 PSF_FWHM=conv_sigma*(2.*np.sqrt(2.*np.log(2.))))
 
 
-- 
2.43.0


From 4481bfdbcb6e7aac743b1aa06256eba8af965340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:35 +0000
Subject: [PATCH 59/61] fix: the sign of position angles above 180 degrees
 could not be found for plain numbers

---
 misfit/plot/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 040d786..3038c27 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -70,7 +70,7 @@ def sign_from_pos_angle(pos_angle):
         pos_angle += 360.
 
     if pos_angle > 180.:
-        PA_old = pos_angle.copy()
+        PA_old = pos_angle
         pos_angle = 360. - PA_old
 
     if pos_angle > 90.:
-- 
2.43.0


From 3db27bd258acfbf98d5a1a25171aef70a2bc3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:35 +0000
Subject: [PATCH 60/61] fix: the position angle of an image turned by -90
 degrees was +90

---
 misfit/plot/plot_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 3038c27..0bc5897 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -38,10 +38,7 @@ def pstamp_position_angle(pstamp_hdr):
         # Don't have any information, so you should return 0.
         return 0.
     else:
-        if cd22 == 0.:
-            return 90.
-        else:
-            return np.arctan2(cd21, cd22)*180./np.pi
+        return np.arctan2(cd21, cd22)*180./np.pi
 
 
 def pos_angle(pos1, pos2, units='degrees'):
-- 
2.43.0


From 4714c12300b5d165e9e8c855f77310f5ebc497de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:57 +0000
Subject: [PATCH 61/61] fix: start the fit of the emission profile from a width
 in arcsec, not pixels

The rows' positions are in arcsec, but the initial dispersion was a quarter of
the number of rows; with small pixels the fit then ended on a single row or on
the whole window.
---
 misfit/general/galaxy_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c2d3cc7..06f833e 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -1526,7 +1526,7 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
         maxsigma = (yy_arr.max()-yy_arr.min())/std2FWHM # FWHM can't be greater than the window
         params.add('mu', value=spec2D.ypos*pixscale, min=yy_arr.min(), max=yy_arr.max())
         params.add('A', value=y_prof.max())  # for pos image
-        params.add('sigma', value=n_spatial/4., min=0.)
+        params.add('sigma', value=n_spatial/4.*pixscale, min=0.)
         #params.add('C', value=0.)   # constant offset
 
         try:
@@ -1544,7 +1544,7 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
                 params = lmfit.Parameters()
                 params.add('mu', value=spec2D.ypos*pixscale, min=yy_arr.min(), max=yy_arr.max())
                 params.add('A', value=y_prof.max())  # for pos image
-                params.add('sigma', value=n_spatial/4., min=0., max=maxsigma)
+                params.add('sigma', value=n_spatial/4.*pixscale, min=0., max=maxsigma)
                 #params.add('C', value=0.)   # constant offset
                 #############################
                 result = lmfit.minimize(utils.gaus_residual_mask, params,
@@ -1595,7 +1595,7 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
                 params_best = lmfit.Parameters()
                 params_best.add('mu', value=spec2D.ypos*pixscale, min=yy_arr.min(), max=yy_arr.max())
                 params_best.add('A', value=y_prof.max())  # for pos image
-                params_best.add('sigma', value=n_spatial/4., min=0.)#, max=maxsigma)
+                params_best.add('sigma', value=n_spatial/4.*pixscale, min=0.)#, max=maxsigma)
 
                 #now fit the perturbed spectrum:
                 result_mc = lmfit.minimize(utils.gaus_residual_mask, params_best,
@@ -1605,7 +1605,7 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
                     params_best = lmfit.Parameters()
                     params_best.add('mu', value=spec2D.ypos*pixscale, min=yy_arr.min(), max=yy_arr.max())
                     params_best.add('A', value=y_prof.max())  # for pos image
-                    params_best.add('sigma', value=n_spatial/4., min=0., max=maxsigma)
+                    params_best.add('sigma', value=n_spatial/4.*pixscale, min=0., max=maxsigma)
 
                     #now fit the perturbed spectrum:
                     result_mc = lmfit.minimize(utils.gaus_residual_mask, params_best,
-- 
2.43.0

