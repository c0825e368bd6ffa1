From dfbea2cdd074d7e76032bd6679085f1f3ec1423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 001/183] fix: tapering a field changed the caller's array,
 failed for integer fields and for window arrays

---
 src/tools21cm/power_spectrum.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2faaa86..52b2d45 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -12,13 +12,14 @@ from scipy import fftpack, stats
 def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
-    if window.lower()=='blackmanharris':
-            input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
-    elif window.lower()=='tukey':
-            input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
-    else:
-            input_array *= window
-    return input_array
+    if isinstance(window, str):
+            if window.lower()=='blackmanharris':
+                    window = windows.blackmanharris(input_array.shape[-1])
+            elif window.lower()=='tukey':
+                    window = windows.tukey(input_array.shape[-1])
+            else:
+                    raise ValueError('Unknown window: %s' % window)
+    return input_array*window
 
 
 def power_spectrum_nd(input_array, box_dims=None, verbose=False, **kwargs):
-- 
2.43.0


From 21386806452f68c67f8a074043e73bda615cbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 002/183] fix: wavenumbers of 1D and 2D fields with an even
 number of cells were off by half a cell

---
 src/tools21cm/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 52b2d45..bc45bdc 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -456,12 +456,12 @@ def _get_k(input_array, box_dims):
     dim = len(input_array.shape)
     if dim == 1:
         x = np.arange(len(input_array))
-        center = x.max()/2.
+        center = len(input_array)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
         return [kx], kx
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
-        center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2])
+        center = np.array([input_array.shape[0]//2, input_array.shape[1]//2])
         kx = 2.*np.pi * (x-center[0])/box_dims[0]
         ky = 2.*np.pi * (y-center[1])/box_dims[1]
         k = np.sqrt(kx**2 + ky**2)
-- 
2.43.0


From 62b7eefb79c7013e2e9ec7093f5667ffa6f09601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 003/183] fix: modes without transverse component were not
 excluded for odd grid sizes

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index bc45bdc..11ed233 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -567,11 +567,11 @@ def _get_nonzero_idx(ps_shape, los_axis):
         '''
         x,y,z = np.indices(ps_shape)
         if los_axis == 0:
-                zero_idx = (y == ps_shape[1]/2)*(z == ps_shape[2]/2)
+                zero_idx = (y == ps_shape[1]//2)*(z == ps_shape[2]//2)
         elif los_axis == 1:
-                zero_idx = (x == ps_shape[0]/2)*(z == ps_shape[2]/2)
+                zero_idx = (x == ps_shape[0]//2)*(z == ps_shape[2]//2)
         else:
-                zero_idx = (x == ps_shape[0]/2)*(y == ps_shape[1]/2)
+                zero_idx = (x == ps_shape[0]//2)*(y == ps_shape[1]//2)
         good_idx = np.invert(zero_idx)
         return good_idx
 
-- 
2.43.0


From 2e06c7d9415661164d0f7011f549909db81e3d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 004/183] fix: mode weights and box sizes given as arrays
 raised an ambiguous truth value error

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 11ed233..0d49ce9 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -384,7 +384,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
-        if weights != None:
+        if weights is not None:
                 powerspectrum *= weights
 
         assert(len(powerspectrum.shape)==3)
@@ -430,7 +430,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                         idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
-                        if weights != None:
+                        if weights is not None:
                                 outdata[i,ki] /= weights[idx].mean()
 
         return outdata, mubins[:-1]+dmu, kbins[:-1]+dk, n_modes
@@ -528,7 +528,7 @@ def _get_dims(box_dims, ashape):
         size
         Otherwise, return as it is
         '''
-        if box_dims == None:
+        if box_dims is None:
                 return [conv.LB]*len(ashape)
         if not hasattr(box_dims, '__iter__'):
                 return [box_dims]*len(ashape)
-- 
2.43.0


From 755e0453b08a4291e49f5a980147c5960b8c293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 005/183] fix: get_kbins needed an array even when the
 wavenumbers were given

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 0d49ce9..d6529cd 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -441,7 +441,7 @@ def get_k(input_array, box_dims):
         
 def get_kbins(kbins, box_dims, k=None, array=None, binning='log'):
         assert k is not None or array is not None
-        box_dims = _get_dims(box_dims, array.shape)
+        box_dims = _get_dims(box_dims, (array if k is None else k).shape)
         if k is None: k_comp, k = _get_k(array, box_dims)
         return _get_kbins(kbins, box_dims, k, binning=binning)
 
-- 
2.43.0


From 6ac513f825cc8c92c6e7a5ea4a72fb3ae205dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 006/183] fix: anisotropy_ratio_r_mu failed when asked for the
 number of modes

---
 src/tools21cm/power_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index d6529cd..b2ef2b1 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -606,10 +606,12 @@ def anisotropy_ratio_r_mu(input_array, los_axis=0, mu_cut=0.5, mubins=20, kbins=
             kbins is an array with the k bin centers.
 
     '''
-    Pk, mubins, kbins = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=return_n_modes, absolute_mus=absolute_mus, **kwargs)
+    Pk, mubins, kbins, n_modes = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=True, absolute_mus=absolute_mus, **kwargs)
     Pup = Pk[mubins>=mu_cut,:]
     Pdn = Pk[mubins<mu_cut,:]
     rup = np.array([pp[np.isfinite(pp)].mean() for pp in Pup.T])
     rdn = np.array([pp[np.isfinite(pp)].mean() for pp in Pdn.T])     
     rmu = rup/rdn-1.0
+    if return_n_modes:
+            return rmu, kbins, n_modes.sum(axis=0)
     return rmu, kbins
\ No newline at end of file
-- 
2.43.0


From bf57aeb2deaa8b7fa213e6a4a7d4502e3b04eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 007/183] fix: modes along the line of sight (mu=1) were lost
 when asked to be kept

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index b2ef2b1..708549f 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -427,7 +427,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                 for i in range(n_mubins):
                         mu_min = mubins[i]
                         mu_max = mubins[i+1]
-                        idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
+                        idx = (mu >= mu_min) & ((mu < mu_max) | ((i == n_mubins-1) & (mu == mu_max))) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
                         if weights is not None:
-- 
2.43.0


From b22beff3505be96bc11748d46b4c75e44528c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 008/183] fix: bin edges given as a list raised a TypeError

---
 src/tools21cm/power_spectrum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 708549f..487f77e 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -406,8 +406,9 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
 
         #Make mu bins
         min_mu=0.0 if absolute_mus else -1.0
-        if isinstance(mubins,int):
+        if isinstance(mubins,(int,np.integer)):
                 mubins = np.linspace(min_mu, 1.0 , mubins+1)
+        mubins = np.asarray(mubins)
         dmu = (mubins[1:]-mubins[:-1])/2.
         n_mubins = len(mubins)-1
 
@@ -508,7 +509,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
         Make a list of bin edges if kbins is an integer,
         otherwise return it as it is.
         '''
-        if isinstance(kbins,int):
+        if isinstance(kbins,(int,np.integer)):
                 kmin = 2.*np.pi/min(box_dims) if kmin is None else kmin
                 kmax = k.max() if kmax is None else kmax
                 if binning=='linear': kbins = np.linspace(kmin, kmax, kbins+1)
@@ -517,7 +518,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
                         kbins = np.hstack((kbins_low[kbins_low<breakpoint],kbins_high[kbins_high>breakpoint]))          
-        return kbins
+        return np.asarray(kbins)
 
 
 def _get_dims(box_dims, ashape):
-- 
2.43.0


From f4b854cfdca63c4b661a36c2fb3eb52290a05c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 009/183] fix: radial_average failed for a box size given as a
 number

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 487f77e..05aedb5 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -119,6 +119,7 @@ def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.
         '''
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
+        box_dims = _get_dims(box_dims, input_array.shape)
         k_comp, k = _get_k(input_array, box_dims)
         kbins = _get_kbins(kbins, box_dims, k, binning=binning, breakpoint=breakpoint)
         
-- 
2.43.0


From 7c80d9b48f4d310755641a5f7f0b7413a69b2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 010/183] fix: power_spectrum_2d failed for the documented list
 [n_kper, n_kpar]

---
 src/tools21cm/power_spectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 05aedb5..8b69406 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -209,11 +209,9 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
         '''
         input_array = apply_window(input_array, window)
         
-        if type(kbins) == list:
-                binning = None
-        elif np.array(kbins).size==1: 
+        if np.isscalar(kbins):
                 kbins = [kbins, kbins]
-        elif not isinstance(kbins[0], int): 
+        elif not np.isscalar(kbins[0]):
                 binning = None
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
-- 
2.43.0


From ecab452d8d2d5af75237800bf8326d9fe1206c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 011/183] fix: power_spectrum_2d raised a NameError for the
 documented mixed binning

---
 src/tools21cm/power_spectrum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 8b69406..080463c 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -236,6 +236,10 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
                 elif binning=='linear':
                         kper = np.linspace(kp[kp!=0].min(), kp.max(), kbins[0]+1)
                         kpar = np.linspace(kz[kz!=0].min(), kz.max(), kbins[1]+1)
+                else:
+                        breakpoint = kwargs.get('breakpoint', 0.1)
+                        kper = _get_kbins(kbins[0], box_dims, kp, binning=binning, breakpoint=breakpoint, kmin=kp[kp!=0].min())
+                        kpar = _get_kbins(kbins[1], box_dims, kz, binning=binning, breakpoint=breakpoint, kmin=kz[kz!=0].min())
         
         kp, kz, power = kp.flatten(), kz.flatten(), power.flatten()
         ps = stats.binned_statistic_2d(x=kp, y=kz, values=power, statistic='mean', bins=[kper, kpar])
-- 
2.43.0


From 0efae3bb8012c4bc6cf75093448329e17ee4cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 012/183] fix: power_spectrum_multipoles could not run and
 counted dimensions instead of modes

---
 src/tools21cm/power_legendre.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_legendre.py b/src/tools21cm/power_legendre.py
index d3fc984..184b8e4 100755
--- a/src/tools21cm/power_legendre.py
+++ b/src/tools21cm/power_legendre.py
@@ -44,13 +44,13 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     k_comp, k = _get_k(input_array, box_dims)
     kbins = _get_kbins(kbins, box_dims, k)
     dk = (kbins[1:]-kbins[:-1])/2.
-    mu = _get_mu(k_comp, k, los_axis)
+    mu = _get_mu(k_comp, k, los_axis, True)
     
     #Exclude k_perp = 0 modes
     if exclude_zero_modes:
         good_idx = _get_nonzero_idx(ps.shape, los_axis)
     else:
-        good_idx = np.ones_like(ps)
+        good_idx = np.ones(ps.shape, dtype=bool)
 
     #Legendre polynomials
     if 'P0' in output:
@@ -76,8 +76,8 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
         kmin = kbins[i]
         kmax = kbins[i+1]
         idx = get_eval()('(k >= kmin) & (k < kmax)')
-        idx *= good_idx
-        nmodes[i] = len(np.nonzero(idx))
+        idx = idx & good_idx
+        nmodes[i] = np.count_nonzero(idx)
         if 'P0' in output:
             multipoles['P0'][i] = np.sum(ps[idx]*P0[idx])/np.sum(P0[idx]**2)
         if 'P2' in output:
-- 
2.43.0


From 54f994890be7cba7d22d254a9f49e7a6d4831741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 013/183] fix: dimensionless_ps could step outside its
 interpolation range by rounding

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 080463c..502388a 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -563,6 +563,7 @@ def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
         Pk, ks = power_spectrum_1d(data, kbins=kbins*factor, box_dims=box_dims, binning=binning)
         f_Dlta = interp1d(ks, Pk*ks**3/2/np.pi**2)
         knew   = 10**np.linspace(np.log10(ks[1]),np.log10(ks[-1]), kbins) if binning=='log' else np.linspace(ks[1],ks[-1], kbins)
+        knew   = np.clip(knew, ks[1], ks[-1]) #rounding may exceed the interpolation range
         return f_Dlta(knew), knew
 
 def _get_nonzero_idx(ps_shape, los_axis):
-- 
2.43.0


From 93b7c7ce51450d49550263e0fee8a812752c3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 014/183] fix: modes with wavenumbers below 0.001 were dropped
 from the mu binning

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 502388a..26e60ee 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -502,7 +502,7 @@ def _get_mu(k_comp, k, los_axis, absolute_mus):
 
         #mu=cos(theta) = k_par/k
         mu = np.abs(los_dist/k) if absolute_mus else los_dist/np.abs(k)
-        mu[np.where(k < 0.001)] = np.nan
+        mu[k == 0] = np.nan
         
         return mu
 
-- 
2.43.0


From 7d53fab6c73b3ddd781c4f4efdb25ffb894847cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 015/183] fix: random fields of odd size had the spectrum of
 neighbouring modes

---
 src/tools21cm/gaussian_random_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/gaussian_random_field.py b/src/tools21cm/gaussian_random_field.py
index 2188938..dfb8cc8 100755
--- a/src/tools21cm/gaussian_random_field.py
+++ b/src/tools21cm/gaussian_random_field.py
@@ -55,7 +55,7 @@ def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None)
     map_ft *= np.sqrt(power_spectrum(k)/scale_factor)
     
     #Inverse FT
-    map_ift = fftpack.ifftn(fftpack.fftshift(map_ft))
+    map_ift = fftpack.ifftn(fftpack.ifftshift(map_ft))
     
     #Return real part
     map_real = np.real(map_ift)
@@ -117,5 +117,5 @@ def fourier_phase_shuffled(input_array, **kwargs):
     ft_phi = np.angle(ft)
     np.random.shuffle(ft_phi)
     ft_new = ft_abs*np.exp(1j * ft_phi)
-    output_array = np.real(fftpack.ifftn(fftpack.fftshift(ft_new)))
+    output_array = np.real(fftpack.ifftn(fftpack.ifftshift(ft_new)))
     return output_array
\ No newline at end of file
-- 
2.43.0


From 4938aef3fc1316a1c838c7d30120173f20becc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 016/183] fix: Bispectrum methods raised an UnboundLocalError
 and ignored the window

---
 src/tools21cm/bispectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 71d0c26..c0fd923 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -109,7 +109,7 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
@@ -165,7 +165,7 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
-- 
2.43.0


From 1f22bff226624628f9d5d3acc8aee6c466c13945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 017/183] fix: Bispectrum methods ignored the box size given to
 the class

---
 src/tools21cm/bispectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index c0fd923..9501be8 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -111,6 +111,7 @@ class Bispectrum:
         input_array_nd = self.input_array.astype(np.float64)
         input_array_nd = apply_window(input_array_nd, window)
 
+        if box_dims is None: box_dims = self.box_dims
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
         
@@ -167,6 +168,7 @@ class Bispectrum:
         input_array_nd = self.input_array.astype(np.float64)
         input_array_nd = apply_window(input_array_nd, window)
 
+        if box_dims is None: box_dims = self.box_dims
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
         
-- 
2.43.0


From 42f07582a0e6827af4ce6f991e97bd7efb4554e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 018/183] fix: bispectra of fields with an odd number of cells
 summed open triangles

---
 src/tools21cm/bispectrum.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 9501be8..ed4aa3d 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -69,16 +69,16 @@ class Bispectrum:
         
         shell1 = self.spherical_shell_mask(input_array_fft.shape, k1, dk1, k_mag=k_mag)
         dfft1  = input_array_fft*shell1
-        s1     = np.fft.ifftn(np.fft.fftshift(shell1))
-        d1     = np.fft.ifftn(np.fft.fftshift(dfft1))
+        s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
+        d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
         if k2==k1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
             dfft2  = input_array_fft*shell2
-            s2     = np.fft.ifftn(np.fft.fftshift(shell2))
-            d2     = np.fft.ifftn(np.fft.fftshift(dfft2))
+            s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
+            d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
         if k3==k1: 
             s3, d3 = s1, d1
@@ -87,8 +87,8 @@ class Bispectrum:
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
             dfft3  = input_array_fft*shell3
-            s3     = np.fft.ifftn(np.fft.fftshift(shell3))
-            d3     = np.fft.ifftn(np.fft.fftshift(dfft3))
+            s3     = np.fft.ifftn(np.fft.ifftshift(shell3))
+            d3     = np.fft.ifftn(np.fft.ifftshift(dfft3))
             
         d123 = np.real(d1*d2*d3)
         s123 = np.real(s1*s2*s3)
-- 
2.43.0


From ffb7351c6b16575b31d23899deda6f805e4b59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 019/183] fix: equilateral bispectra were measured at the bin
 edges but reported at the bin centres

---
 src/tools21cm/bispectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index ed4aa3d..527d2de 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -180,7 +180,7 @@ class Bispectrum:
         dk = dk*np.ones_like(kbins) if isinstance(dk,float) else dk
         
         def run_loop(i):
-            k1 = kbins[i]
+            k1 = (kbins[i] + kbins[i+1])/2
             dk1 = dk[i]
             b123 = self.bispectrum_fast(input_array_fft,
                             k1, k1, k1,
-- 
2.43.0


From da7f421d8078a1dd654f10f99eadd63e7cc3508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 020/183] fix: spherical_shell_mask used the squared wavenumber
 when given the components

---
 src/tools21cm/bispectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 527d2de..773010d 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -46,7 +46,7 @@ class Bispectrum:
          
     def spherical_shell_mask(self, array_shape, k_center, k_width, k_comp=None, k_mag=None):
         assert k_comp is not None or k_mag is not None
-        if k_mag is None: k_mag = np.sum(np.array(k_comp)**2, axis=0)
+        if k_mag is None: k_mag = np.sqrt(np.sum(np.array(k_comp)**2, axis=0))
         try: out = np.zeros(array_shape)
         except: out = np.zeros((array_shape[0],array_shape[1],array_shape[2]))
         out[np.abs(k_mag-k_center)<k_width/2] = 1
-- 
2.43.0


From 88c7ff31e6df66028be070cd9e2bc3eb388f99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 021/183] fix: bispectrum shells with the same centre but
 another width were mixed up

---
 src/tools21cm/bispectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 773010d..ffe00c0 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -72,7 +72,7 @@ class Bispectrum:
         s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
         d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
-        if k2==k1: 
+        if k2==k1 and dk2==dk1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
@@ -80,9 +80,9 @@ class Bispectrum:
             s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
             d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
-        if k3==k1: 
+        if k3==k1 and dk3==dk1: 
             s3, d3 = s1, d1
-        elif k3==k2: 
+        elif k3==k2 and dk3==dk2: 
             s3, d3 = s2, d2
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
@@ -177,7 +177,7 @@ class Bispectrum:
         if verbose: print('FFT of data done')
 
         kbins = _get_kbins(n_bins, box_dims, k_mag, binning=binning, kmax=k_mag.max()/2, kmin=None)
-        dk = dk*np.ones_like(kbins) if isinstance(dk,float) else dk
+        dk = dk*np.ones_like(kbins) if np.isscalar(dk) else dk
         
         def run_loop(i):
             k1 = (kbins[i] + kbins[i+1])/2
-- 
2.43.0


From 8a3619b94354f779e0dbb487e3c506fd009a266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 022/183] fix: the third side of a folded triangle could be NaN
 by rounding

---
 src/tools21cm/bispectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index ffe00c0..e6d3c28 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -53,7 +53,7 @@ class Bispectrum:
         return out
 
     def cosine_rule(self, k1, k2, alpha):
-        k3 = np.sqrt(k1**2 + k2**2 + 2*k1*k2*np.cos(alpha))
+        k3 = np.sqrt(np.maximum(k1**2 + k2**2 + 2*k1*k2*np.cos(alpha), 0))
         return k3
 
     def bispectrum_fast(self, input_array_fft,
-- 
2.43.0


From d2b98a6763a2a73922c7613bc73064de9dcb8c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 023/183] fix: distances, redshifts and ages of integer arrays
 were truncated to integers

---
 src/tools21cm/cosmo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1c836b9..a6dae26 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -138,7 +138,7 @@ def z_to_cdist(z):
         Comoving distance in Mpc
     '''
     z = np.atleast_1d(z)
-    dist = np.zeros_like(z)
+    dist = np.zeros(len(z))
     for i in range(len(z)):
         Ez_func = lambda x: 1./np.sqrt(const.Omega0*(1.+x)**3+const.lam)
         dist[i] = const.c/const.H0 * quad(Ez_func, 0, z[i])[0]
@@ -160,7 +160,7 @@ def cdist_to_z(dist):
         
     '''
     dist = np.atleast_1d(dist)
-    z = np.zeros_like(dist)
+    z = np.zeros(len(dist))
     func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
     z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
@@ -183,7 +183,7 @@ def z_to_age(z):
     '''
     z = np.atleast_1d(z)
     a = 1/(1+z)
-    tage = np.zeros_like(z)
+    tage = np.zeros(len(z))
     for i in range(len(a)):
         Ea_func = lambda x: 1./x/np.sqrt(const.Omega0*x**-3+const.lam)
         tage[i] = 1/const.H0 * quad(Ea_func, 0, a[i])[0]
-- 
2.43.0


From 52afc7b7fc44ad24527a4d3e9462a6a4a025dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 024/183] fix: luminosity_distance failed for lists and
 returned an array for a single redshift without dark energy

---
 src/tools21cm/cosmo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index a6dae26..9cdacc4 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -105,14 +105,13 @@ def luminosity_distance(z, k=0):
         The luminosity distance in Mpc
      '''
 
-    if not (type(z) is np.ndarray): #Allow for passing a single z
-        z = np.array([z])
+    z = np.atleast_1d(z) #Allow for passing a single z
     n = len(z)
 
     if const.lam == 0:
         denom = np.sqrt(1+2*const.q0*z) + 1 + const.q0*z 
         dlum = (const.c*z/const.H0)*(1 + z*(1-const.q0)/denom)
-        return dlum
+        return outputify(dlum)
     else:
         dlum = np.zeros(n)
         for i in range(n):
-- 
2.43.0


From a57d5227a0ff9904a076626163a253710c5cd9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 025/183] fix: cdist_to_z extrapolated for cosmologies away
 from the tabulated one

---
 src/tools21cm/cosmo.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 9cdacc4..1495ee3 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -160,11 +160,7 @@ def cdist_to_z(dist):
     '''
     dist = np.atleast_1d(dist)
     z = np.zeros(len(dist))
-    func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
-    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
-    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
-    table_z     = precalc_table_z[precalc_table_z>z_min_guess]
-    table_z     = table_z[table_z<z_max_guess]
+    table_z     = precalc_table_z
     table_cdist = z_to_cdist(table_z)
     func = interp1d(table_cdist, table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     for i in range(len(dist)):
-- 
2.43.0


From 42461bf81c21bea7e4a813d142747aba393197e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 026/183] fix: setting omega_lambda left OmegaL and the
 deceleration parameter behind

---
 src/tools21cm/const.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 810a56c..a2fe359 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -73,9 +73,10 @@ def set_omega_lambda(value):
 	'''
 	Define new omega lambda value.
 	'''
-	global lam
+	global lam, OmegaL, q0
 	lam = value 
 	OmegaL = value
+	q0 = 0.5*Omega0 - lam
 
 def set_ns(value):
 	'''
-- 
2.43.0


From 81a85dc4ef579f903b74581c9f3aa29c3219a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 027/183] fix: critical density, hydrogen density and mean
 signal did not follow the parameters set

---
 src/tools21cm/const.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index a2fe359..c72b39d 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -27,6 +27,7 @@ def set_abundance_helium(value):
 	global abu_he_mass, abu_h_mass
 	abu_he_mass = value
 	abu_h_mass = 1.0-abu_he_mass
+	_set_derived()
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -51,6 +52,7 @@ def set_hubble_h(value):
 	global h, H0
 	h  = value 
 	H0 = 100.0*h
+	_set_derived()
 
 def set_omega_matter(value): 
 	'''
@@ -60,6 +62,7 @@ def set_omega_matter(value):
 	Omega0 = value
 	lam = 1.0-Omega0
 	q0 = 0.5*Omega0 - lam
+	_set_derived()
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
@@ -68,6 +71,7 @@ def set_omega_baryon(value):
 	'''
 	global OmegaB
 	OmegaB = value 
+	_set_derived()
 
 def set_omega_lambda(value):
 	'''
@@ -110,3 +114,16 @@ lambda0 = c*1.0e5/(nu0*1.0e6) # cm
 num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
 # meandt = 2.9*0.043/0.04
 meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+
+def _set_derived():
+	'''
+	Update the quantities that follow from the cosmological parameters.
+	For internal use.
+	'''
+	global mean_molecular, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt
+	mean_molecular = 1.0/(1.0-abu_he_mass)
+	H0cgs = H0*1e5/Mpc
+	rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
+	rho_matter = rho_crit_0*Omega0
+	num_h_0 = (1-abu_he_mass)*OmegaB*rho_crit_0/m_p
+	meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
-- 
2.43.0


From 46fab609d364f711a628f8220a7279c1b5cbc414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 028/183] fix: brightness temperature lightcones varied along
 the last axis whatever the line of sight

---
 src/tools21cm/temperature.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 815c4ae..117fd72 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -146,7 +146,7 @@ def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis = 2):
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
+	z = _along_los(cosmo.cdist_to_z(cdist), los_axis)
 	return _dt(dens, xfrac, z)
 
 def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=True):
@@ -189,8 +189,8 @@ def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=Tr
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
-	print("Redshift: ", str(z))
+	z = _along_los(cosmo.cdist_to_z(cdist), los_axis)
+	print("Redshift: ", str(z.ravel()))
 	return _dt_full(dens, xfrac,temp, z, correct)
 
 def mean_dt(z):
@@ -212,6 +212,13 @@ def mean_dt(z):
 	return Cdt
 	
 
+def _along_los(z, los_axis):
+	# One redshift per slice, shaped to vary along los_axis of a 3D cube
+	shape = [1, 1, 1]
+	shape[los_axis] = -1
+	return np.reshape(z, shape)
+
+
 def _dt(rho, xi, z):
 		
 	rho_mean = const.rho_crit_0*const.OmegaB if rho.min()>=0 else 1
-- 
2.43.0


From bd903b4c5c17c05096194eda03786fd62acbdd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 029/183] fix: spin-temperature lightcones used one mean
 redshift for all slices

---
 src/tools21cm/temperature.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 117fd72..8531a98 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -229,8 +229,7 @@ def _dt(rho, xi, z):
 	return dt
 
 def _dt_full(rho, xi, Ts, z, correct):
-        z = np.mean(z)
-        print("Redshift:" , str(z))
+        print("Redshift:" , str(np.mean(z)))
         rho_mean = const.rho_crit_0*const.OmegaB
         Tcmb 	 = const.Tcmb0*(1+z) 
         Cdt      = mean_dt(z)
@@ -257,7 +256,7 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
                 Ts_new = (Ts-xi*T_HII)/(1.-xi)
-                Ts_new[Ts_new < T_min] = T_min
+                Ts_new = np.maximum(Ts_new, T_min)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
                 Ts_new=Ts
-- 
2.43.0


From 550a47c6078b969e69dbfa6a5f50d6bfbe4994f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 030/183] fix: fully ionised cells had an undefined brightness
 temperature

---
 src/tools21cm/temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 8531a98..ef9fac4 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -255,7 +255,9 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # assuming that the ionized part of the cell is fully ionized
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
-                Ts_new = (Ts-xi*T_HII)/(1.-xi)
+                # (in fully ionized cells there is no neutral medium left)
+                neutral = np.where(xi < 1., 1.-xi, 1.)
+                Ts_new = np.where(xi < 1., (Ts-xi*T_HII)/neutral, Ts)
                 Ts_new = np.maximum(Ts_new, T_min)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
-- 
2.43.0


From 9f9fe41de7932eb1db89d8766c7282b0a40516aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 031/183] fix: calc_dt could not take the redshift from file
 objects or from one file among arrays

---
 src/tools21cm/helper_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcf86a6..7a64cbb 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -485,6 +485,9 @@ def determine_redshift_from_filename(filename):
                 * redshift (float) 
                 If no redshift could be found, return -1
         '''
+        if not isinstance(filename, (str, bytes, os.PathLike)):
+                #A file object knows its redshift, plain data does not
+                return getattr(filename, 'z', -1)
         filename = os.path.basename(filename)
         filename = os.path.splitext(filename)[0]
         
-- 
2.43.0


From 0c46e122d339dd758729d8e4f8afbc806950560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 032/183] fix: mean-subtracted signals failed for integer cubes
 and signal_overdensity ignored negative axes

---
 src/tools21cm/statistics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 615becf..d263c42 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -72,7 +72,7 @@ def subtract_mean_signal(signal, los_axis=2):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(np.result_type(signal, np.float32))
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis in [0,-3]:
@@ -98,14 +98,14 @@ def signal_overdensity(signal, los_axis):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(np.result_type(signal, np.float32))
 	
 	for i in range(signal.shape[los_axis]):
-		if los_axis == 0:
+		if los_axis in [0,-3]:
 			signal_out[i,:,:] /= signal[i,:,:].mean()
-		if los_axis == 1:
+		if los_axis in [1,-2]:
 			signal_out[:,i,:] /= signal[:,i,:].mean()
-		if los_axis == 2:
+		if los_axis in [2,-1]:
 			signal_out[:,:,i] /= signal[:,:,i].mean()
 
 	return signal_out - 1.
-- 
2.43.0


From 0b6a0bd458f089dec7d96a30418b69b716b0371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 033/183] fix: find_idx clamped the caller's array and
 truncated the bounds for integer values

---
 src/tools21cm/helper_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 7a64cbb..6fedd1e 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -530,6 +530,7 @@ def find_idx(ar, values):
         
         #Make input into an array and clamp outliers
         values = np.atleast_1d(values)
+        values = values.astype(np.result_type(ar, values, np.float32)) #always a copy
         values[values > ar.max()] = ar.max()
         values[values < ar.min()] = ar.min()
         
-- 
2.43.0


From 1265cbb7d4fdff4339aa5f9ac02cecdb227f2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 034/183] fix: combined_mean_variance failed for tuples

---
 src/tools21cm/helper_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 6fedd1e..f89526f 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -623,15 +623,15 @@ def combined_mean_variance(means, variances, sample_sizes=None):
     (3.2, 0.6666666666666666)
     '''
     # Convert inputs to numpy arrays for easier manipulation
-    if isinstance(means, list) or isinstance(means, dict):
+    if not isinstance(means, np.ndarray):
         means = np.array(list(means.values()) if isinstance(means, dict) else means)
 
-    if isinstance(variances, list) or isinstance(variances, dict):
+    if not isinstance(variances, np.ndarray):
         variances = np.array(list(variances.values()) if isinstance(variances, dict) else variances)
 
     if sample_sizes is None:
         sample_sizes = np.ones(means.shape)
-    elif isinstance(sample_sizes, list) or isinstance(sample_sizes, dict):
+    elif not isinstance(sample_sizes, np.ndarray):
         sample_sizes = np.array(list(sample_sizes.values()) if isinstance(sample_sizes, dict) else sample_sizes)
 
     # Calculate combined mean
-- 
2.43.0


From 8667194794a1901e00bebb8c2ea2817d2bd8eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 035/183] fix: step interpolation of lightcones always took the
 high-redshift box

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 4ad32fa..0322193 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -440,7 +440,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
         slice_interp = ((z-z_bracket_low)*slice_high + \
                     (z_bracket_high - z)*slice_low)/(z_bracket_high-z_bracket_low)
     elif interpolation == 'step':
-        transition_z = (z_bracket_high-z_bracket_low)/2.
+        transition_z = (z_bracket_high+z_bracket_low)/2.
         if z < transition_z:
             slice_interp = slice_low.copy()
         else:
-- 
2.43.0


From 7f852a31342ea626120682b16543342f0289de99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 036/183] fix: lightcones whose slices skip a box interpolated
 from the wrong box

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 0322193..7ca0cfa 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -129,7 +129,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
             file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
-            if data_high is None:
+            if data_high is None or z_bracket_high != z_bracket_low:
                 if reading_function is None: data_low, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
                 else: data_low = reading_function(filenames[file_idx])#; print('yes')
             else: #No need to read the file again
-- 
2.43.0


From f10e1458b6ba1e4fd5d9baf4572548cf149b5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 037/183] fix: lightcones from a directory, a text file or
 listed redshifts failed

---
 src/tools21cm/lightcone.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 7ca0cfa..86914b3 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -522,7 +522,7 @@ def _get_filenames(filenames_in):
     If it is a text file, read the list of files from the file
     '''
     
-    if hasattr(filenames_in, '__iter__'):
+    if not isinstance(filenames_in, str) and hasattr(filenames_in, '__iter__'):
         filenames_out = filenames_in
     elif os.path.isdir(filenames_in):
         files_in_dir = glob.glob(filenames_in + '/*')
@@ -548,8 +548,8 @@ def _get_file_redshifts(redshifts_in, filenames):
     Else, return as is
     '''
     
-    if hasattr(redshifts_in, '__iter__'):
-        redshifts_out = redshifts_in
+    if not isinstance(redshifts_in, str) and hasattr(redshifts_in, '__iter__'):
+        redshifts_out = np.array(redshifts_in)
     elif redshifts_in is None:
         redshifts_out = [determine_redshift_from_filename(f) for f in filenames]
         redshifts_out = np.array(redshifts_out)
-- 
2.43.0


From d282c3a194d2a69af3df13f107caecab36a6b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 038/183] fix: redshifts listed along with a reading function
 failed

---
 src/tools21cm/lightcone.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 86914b3..82bc117 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -103,6 +103,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         mesh_size = get_mesh_size(filenames[0])
     else:
         assert file_redshifts is not None
+        file_redshifts = _get_file_redshifts(file_redshifts, filenames)
         mesh_size = reading_function(filenames[0]).shape
 
     assert len(file_redshifts) == len(filenames)
-- 
2.43.0


From f1d2ded489a08c864b5788a86a412670f9ba057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 039/183] fix: lightcones in frequency failed for the highest
 slice by default

---
 src/tools21cm/lightcone.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 82bc117..b279025 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -123,8 +123,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_bracket(file_redshifts, z)
         
         #Do we need a new file for the low z?
         if z_bracket_low_new != z_bracket_low:
@@ -242,8 +241,7 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_bracket(file_redshifts, z)
         
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -429,6 +427,17 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     return subbox, box_dims, redshifts[low_n:high_n]
 
 
+def _get_bracket(file_redshifts, z):
+    '''
+    The redshifts of the two coeval cubes around z. For internal use.
+    '''
+    z_bracket_high = file_redshifts[file_redshifts > z]
+    if len(z_bracket_high) == 0: #z is the highest of the redshifts
+        z_bracket_high = file_redshifts[file_redshifts >= z]
+        return file_redshifts[file_redshifts < z].max(), z_bracket_high.min()
+    return file_redshifts[file_redshifts <= z].max(), z_bracket_high.min()
+
+
 def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
                       comoving_pos_idx, los_axis, interpolation='linear'):
     '''
-- 
2.43.0


From fbfeaafeb6725bb3438a90533d665e0f163dc7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 040/183] fix: get_lightcone_subvolume accepted both depths or
 none

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index b279025..0211529 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -380,7 +380,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
         with the dimensions of the subvolume in Mpc
     '''
     
-    assert len(np.nonzero([depth_mhz, depth_mpc])) == 1
+    assert (depth_mhz is None) != (depth_mpc is None)
     
     if fov_Mpc is None:
         fov_Mpc = conv.LB
-- 
2.43.0


From c8ed6d3cb3cea66b2e1bd53f7ad0f9094446758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 041/183] fix: subvolumes reaching the last slice of a
 lightcone failed when printing

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 0211529..1a0623f 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -418,7 +418,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     box_depth = max_cdist-min_cdist
     box_dims = (fov_Mpc, fov_Mpc, box_depth)
     if(verbose): 
-        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n]))
+        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n-1]))
         print('Slice frequencies (MHz): %.1f %.1f' %(min_freq, max_freq))
         print('Slice comoving distances (cMpc): %.2f %.2f' %(min_cdist, max_cdist))
         print('Slice indices:', low_n, high_n)
-- 
2.43.0


From c732a055ddfd3e2c1bf94d472475dd27cfa413e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 042/183] fix: coeval cubes from a directory were read from the
 wrong files

---
 src/tools21cm/usefuls.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 7a54b32..0d0a995 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -61,13 +61,15 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	xfrac_files = glob.glob(xfrac_dir + '/xfrac3d_*.bin')
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
+	order = np.argsort(xfrac_zs)
+	xfrac_zs, xfrac_files = xfrac_zs[order], np.array(xfrac_files)[order]
 	if z in xfrac_zs:
-		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = xfrac_file.XfracFile(xfrac_files[np.searchsorted(xfrac_zs, z)]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = xfrac_file.XfracFile(xfrac_files[np.searchsorted(xfrac_zs, z)-1]).xi
+		xfrac_h = xfrac_file.XfracFile(xfrac_files[np.searchsorted(xfrac_zs, z)]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using", interpolation, "interpolation.")
 	return xfrac
@@ -82,14 +84,16 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 		raise ValueError('Unknown interpolation type: %s' % interpolation)
 	dens_files  = glob.glob(dens_dir + '/*n_all.dat')
 	dens_zs  = None
-	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
+	dens_zs = lightcone._get_file_redshifts(dens_zs, dens_files)
+	order = np.argsort(dens_zs)
+	dens_zs, dens_files = dens_zs[order], np.array(dens_files)[order]
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.searchsorted(dens_zs, z)])
 	else:
 		z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		dens_l, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_l, dtype = helper_functions.get_data_and_type(dens_files[np.searchsorted(dens_zs, z)-1])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.searchsorted(dens_zs, z)])
 		dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		print("The density cube has been interpolated using", interpolation, "interpolation.")
 	return dens.astype(np.float64)
-- 
2.43.0


From 734408aa2832b5c39c7f360295e27dba20a3e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 043/183] fix: coeval C2Ray cubes from a directory were read
 from the wrong files

---
 src/tools21cm/read_files.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 62538df..74a50e6 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -119,13 +119,15 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	xfrac_files = glob.glob(xfrac_dir + '/xfrac3d_*.bin')
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
+	order = np.argsort(xfrac_zs)
+	xfrac_zs, xfrac_files = xfrac_zs[order], np.array(xfrac_files)[order]
 	if z in xfrac_zs:
-		xfrac = XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = XfracFile(xfrac_files[np.searchsorted(xfrac_zs, z)]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = XfracFile(xfrac_files[np.searchsorted(xfrac_zs, z)-1]).xi
+		xfrac_h = XfracFile(xfrac_files[np.searchsorted(xfrac_zs, z)]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using %s interpolation." %interpolation)
 		print("CAUTION: This data should be used with care.")
@@ -146,14 +148,16 @@ def coeval_dens_c2ray(dens_dir, z):
 	"""
 	dens_files  = glob.glob(dens_dir + '/*n_all.dat')
 	dens_zs  = None
-	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
+	dens_zs = lightcone._get_file_redshifts(dens_zs, dens_files)
+	order = np.argsort(dens_zs)
+	dens_zs, dens_files = dens_zs[order], np.array(dens_files)[order]
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.searchsorted(dens_zs, z)])
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
 		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.searchsorted(dens_zs, z)])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		dens = dens_h*(1+z_h)**3/(1+z)**3
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
-- 
2.43.0


From 14a319e244446d49431408f67220653e098a5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 044/183] fix: coeval_vel could not run and paired velocities
 with the densities of other redshifts

---
 src/tools21cm/usefuls.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 0d0a995..ad8e573 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -118,20 +118,18 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 		raise ValueError('Unknown interpolation type: %s' % interpolation)
 	dens_files = glob.glob(dens_dir + '/*n_all.dat')
 	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
-	vel_zs     = None
-	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
-	def get_vel(vel_file, dens_file):
-		dfile = density_file.DensityFile(dens_file)
-		vel_file = vel_file.VelocityFile(vel_file)
-		vel = vel_file.get_kms_from_density(dfile)
-		return vel
+	vel_zs     = lightcone._get_file_redshifts(None, vel_files)
+	dens_zs    = lightcone._get_file_redshifts(None, dens_files)
+	def get_vel(redshift):
+		dfile = density_file.DensityFile(dens_files[np.argmin(np.abs(dens_zs-redshift))])
+		vfile = vel_file.VelocityFile(vel_files[np.argmin(np.abs(vel_zs-redshift))])
+		return vfile.get_kms_from_density(dfile)
 	if z in vel_zs:
-		vel = get_vel(vel_files[np.argwhere(z==vel_zs)],dens_files[np.argwhere(z==vel_zs)])
+		vel = get_vel(z)
 	else:
 		z_l = vel_zs[vel_zs<z].max()
 		z_h = vel_zs[vel_zs>z].min()
-		vel_l = get_vel(vel_files[vel_zs[vel_zs<z].argmax()],dens_files[vel_zs[vel_zs<z].argmax()])
-		vel_h = get_vel(vel_files[vel_zs[vel_zs>z].argmin()],dens_files[vel_zs[vel_zs>z].argmin()])
+		vel_l, vel_h = get_vel(z_l), get_vel(z_h)
 		vel = vel_h + (vel_l-vel_h)*(z-z_h)/(z_l-z_h)
 		print("The velocity cube has been interpolated using", interpolation, "interpolation.")
 	return vel
-- 
2.43.0


From 2cd12014ffe38bba68c09c8510b4ebe09bd40300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 045/183] fix: read_c2ray_files could not read velocities

---
 src/tools21cm/read_files.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 74a50e6..e8fbd4b 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -57,9 +57,7 @@ def read_c2ray_files(filename, file_type='xfrac', density_file=None):
 		out = dens.astype(np.float64)
 	elif file_type=='vel':
 		assert density_file is not None
-		dfile = density_file.DensityFile(density_file)
-		vel_file = vel_file.VelocityFile(filename)
-		out = vel_file.get_kms_from_density(dfile)
+		out = vel_file.VelocityFile(filename).get_kms_from_density(density_file)
 	return out
 
 def read_grizzly_files(filename):
-- 
2.43.0


From 46ccfca7e86106a4a0f1e8d023f340b308eebdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 046/183] fix: 21cmFAST files could not be read with current
 numpy

---
 src/tools21cm/read_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index e8fbd4b..40be7e7 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -17,7 +17,7 @@ def _load_binary_data(filename, dtype=np.float32):
 	f = open(filename, "rb") 
 	data = f.read() 
 	f.close() 
-	_data = np.fromstring(data, dtype) 
+	_data = np.frombuffer(data, dtype).copy() 
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
 	return _data 
-- 
2.43.0


From 59658b12eab07a783bedccd05bbfb8bae6f86377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 047/183] fix: freq_box could not run and bracketed from the
 lowest box

---
 src/tools21cm/deprecated.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/deprecated.py b/src/tools21cm/deprecated.py
index af18da2..959b8dd 100755
--- a/src/tools21cm/deprecated.py
+++ b/src/tools21cm/deprecated.py
@@ -84,8 +84,8 @@ def freq_box(xfrac_dir, dens_dir, z_low, z_high):
     
     for z in output_z:
         #Find the output files that bracket the redshift
-        z_bracket_low_new = dens_redshifts[dens_redshifts <= z][0]
-        z_bracket_high_new = dens_redshifts[dens_redshifts >= z][0]
+        z_bracket_low_new = dens_redshifts[dens_redshifts <= z][-1]
+        z_bracket_high_new = dens_redshifts[dens_redshifts > z][0]
 
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -103,17 +103,17 @@ def freq_box(xfrac_dir, dens_dir, z_low, z_high):
         
         #Ionized fraction
         xi_interp = _get_interp_slice(xfrac_file_high.xi, xfrac_file_low.xi, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, los_axis=0)
         xfrac_lightcone[:,:,comoving_pos_idx] = xi_interp
 
         #Density
         rho_interp = _get_interp_slice(dens_file_high.cgs_density, dens_file_low.cgs_density, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, los_axis=0)
         dens_lightcone[:,:,comoving_pos_idx] = rho_interp
 
         #Brightness temperature
         dt_interp = _get_interp_slice(dt_cube_high, dt_cube_low, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, los_axis=0)
         dt_lightcone[:,:,comoving_pos_idx] = dt_interp
 
         print_msg( 'Slice %d of %d' % (comoving_pos_idx, len(output_z)) )
-- 
2.43.0


From 171f476b03e2060dee9fff6385ad3ee7da4a53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 048/183] fix: lightcones from a dictionary of file names
 failed

---
 src/tools21cm/lightcone.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 1a0623f..2239a5f 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -90,6 +90,10 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     if not interpolation in ['linear', 'step', 'sigmoid', 'step_cell']:
         raise ValueError('Unknown interpolation type: %s' % interpolation)
     
+    if isinstance(filenames,dict) and reading_function is None and _all_names(filenames):
+        file_redshifts = np.sort(list(filenames.keys()))
+        filenames = [filenames[zi] for zi in file_redshifts]
+
     if isinstance(filenames,dict):
         if reading_function is None: 
             reading_function = lambda x: x
@@ -205,6 +209,12 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     have redshift values as keys and corresponding file names as values.
     '''
     
+    if isinstance(vel_filenames, dict) and _all_names(vel_filenames) and _all_names(dens_filenames) \
+            and vel_reading_function is None and dens_reading_function is None:
+        file_redshifts = np.sort(list(vel_filenames.keys()))
+        vel_filenames = [vel_filenames[zi] for zi in file_redshifts]
+        dens_filenames = [dens_filenames[zi] for zi in file_redshifts]
+
     if isinstance(vel_filenames, dict):
         file_redshifts = np.sort(list(vel_filenames.keys()))
         vel_filenames = {ii: vel_filenames[zi] for ii, zi in enumerate(file_redshifts)}
@@ -572,6 +582,10 @@ def _get_file_redshifts(redshifts_in, filenames):
 
 
 
+def _all_names(items):
+    return all(isinstance(x, str) for x in items.values())
+
+
 def _all_same(items):
     return all(x == items[0] for x in items)
 
-- 
2.43.0


From 1bc6e71e42e668edc6982a0dd4e594661f44765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 049/183] fix: raw_density was ignored for density file names

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index f89526f..de9a65f 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -389,7 +389,7 @@ def get_data_and_type(indata, cbin_bits=32, cbin_order='c', raw_density=False):
                 elif filetype == 'temper':
                         return get_data_and_type(tools21cm.temper_file.TemperFile(indata))
                 elif filetype == 'density':
-                        return get_data_and_type(tools21cm.density_file.DensityFile(indata))
+                        return get_data_and_type(tools21cm.density_file.DensityFile(indata), raw_density=raw_density)
                 elif filetype == 'cbin':
                         return read_cbin(indata, bits=cbin_bits, order=cbin_order), 'cbin'
                 elif filetype == 'dbt':
-- 
2.43.0


From fd6f574824b04fb79b257cef4f9a2b7dcbd92785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 050/183] fix: tau failed for lists

---
 src/tools21cm/tau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/tau.py b/src/tools21cm/tau.py
index 4b4e835..58a1f7a 100755
--- a/src/tools21cm/tau.py
+++ b/src/tools21cm/tau.py
@@ -41,6 +41,7 @@ def tau(ionfractions, redshifts, num_points = 50):
         print('Incorrect length of ionfractions')
         raise Exception()
 
+    ionfractions, redshifts = np.asarray(ionfractions), np.asarray(redshifts)
     ionfractions, redshifts = ionfractions[np.argsort(redshifts)], redshifts[np.argsort(redshifts)]
 
     sigma_T = 6.65e-25
-- 
2.43.0


From 4a5c1c4268cd9f87221e2a9b7c8f21c471227dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 051/183] fix: tau_map did not sort the redshifts of an array
 like tau does

---
 src/tools21cm/tau.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/tau.py b/src/tools21cm/tau.py
index 58a1f7a..26fd6dc 100755
--- a/src/tools21cm/tau.py
+++ b/src/tools21cm/tau.py
@@ -111,7 +111,8 @@ def tau_map(ionfractions, redshifts=None, num_points=50, reading_function=None):
         redshifts = np.sort(np.array(list(ionfractions.keys())))
 
     if isinstance(ionfractions, np.ndarray):
-        lightcone, output_z = ionfractions, redshifts
+        order = np.argsort(redshifts)
+        lightcone, output_z = ionfractions[:, :, order], np.asarray(redshifts)[order]
     else:
         lightcone, output_z = make_lightcone(ionfractions, file_redshifts=redshifts, reading_function=reading_function)
 
-- 
2.43.0


From f0808947ca34dcbb49ea9cfac918635e16f14088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 052/183] fix: signal displaced by more than one box length was
 lost in redshift space

---
 src/tools21cm/pv_mpm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index a2c01a9..418757e 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -112,8 +112,8 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
 
             #Periodic boundary conditions
             if periodic:
-                particle_pos[np.where(particle_pos < 0)] += box_depth
-                particle_pos[np.where(particle_pos > box_depth)] -= box_depth
+                outside = (particle_pos < 0) | (particle_pos > box_depth)
+                particle_pos[outside] = np.mod(particle_pos[outside], box_depth)
 
             #Regrid particles to original resolution
             dist_skewer = np.histogram(particle_pos, \
-- 
2.43.0


From a014f74e0fded5dcefbf816b798cea1e8fafd9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 053/183] fix: redshift-space boxes of integer cubes were
 truncated to integers

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 418757e..d1d4453 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -83,7 +83,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     dr = (1.+z_obs)*vpar/const.Hz(z_obs)
 
     #Make the distorted box
-    distbox = np.zeros_like(dT)
+    distbox = np.zeros_like(dT, dtype=np.result_type(dT, np.float32))
     particle_dT = np.zeros(grid_depth*num_particles)
 
     last_percent = 0
-- 
2.43.0


From 80da05a1104c6926fc98823d25d9b7ed45b0cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 054/183] fix: cubes with unequal transverse sides silently
 lost sight lines in redshift space

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index d1d4453..85fb668 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -56,7 +56,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     '''
     #Volume dimensions
     mx,my,mz = dT.shape
-    assert(mx == my or my == mz or mx == mz) #TODO: this should not be a requirement 
+    assert(dT.shape[(los_axis+1)%3] == dT.shape[(los_axis+2)%3]) #TODO: this should not be a requirement 
     grid_depth = dT.shape[los_axis]
     grid_width = dT.shape[(los_axis+1)%3]
     box_depth = grid_depth * (conv.LB/float(grid_width))
-- 
2.43.0


From a1102f3561c44637b4f74646d7eaeb007407f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 055/183] fix: make_pv_box used the first velocity component
 for every line of sight

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 85fb668..b81fdde 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -152,7 +152,7 @@ def make_pv_box(dT_filename, vel_filename, dens_filename, z, los = 0, num_partic
     vfile = vel_file.VelocityFile(vel_filename)
     dfile = density_file.DensityFile(dens_filename)
     kms = vfile.get_kms_from_density(dfile)
-    dT_pv = get_distorted_dt(dT, kms, redsh = z, los_axis = los, \
+    dT_pv = get_distorted_dt(dT, kms, redsh = z, los_axis = los, velocity_axis = los, \
                             num_particles = num_particles)
     return dT_pv
 
-- 
2.43.0


From b49626597b738dc1a19d49f7e4ca9222af5f59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 056/183] fix: periodic FFT convolution displaced by one cell
 for odd kernels

-s2 // 2 rounds away from the kernel centre s2 // 2 used by every other boundary rule.
---
 src/tools21cm/fft_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 11b752c..d5758b5 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -107,7 +107,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = torch_fft.ifftn(f1 * f2, s=fsize, dim=calc_axes)
 
         if boundary == 'circular':
-            return torch.roll(ret, shifts=tuple((-s2 // 2).tolist()), dims=calc_axes)
+            return torch.roll(ret, shifts=tuple((-(s2 // 2)).tolist()), dims=calc_axes)
 
     # --- 3. JAX Backend ---
     elif backend == 'jax':
@@ -132,7 +132,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = jnp.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return jnp.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return jnp.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 4. NumPy Backend ---
     elif backend == 'numpy':
@@ -154,7 +154,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = np.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return np.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return np.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
-- 
2.43.0


From c5633679715f21ca7eb33b0d000c638d16f290d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 057/183] fix: padded FFT convolution displaced by one cell for
 even kernels

The kernel centre is s2 // 2 for the constant and circular boundaries; the padding has to use the same one.
---
 src/tools21cm/fft_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index d5758b5..226b6dd 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -71,8 +71,8 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         do_pad = False
     else: 
         do_pad = True
-        pad_before = s2 - 1 if mode == 'full' else s2 // 2
-        pad_after = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_before = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_after = s2 - 1 if mode == 'full' else s2 // 2
         fsize = tuple((s1 + pad_before + pad_after + s2 - 1).tolist())
 
     # --- 2. PyTorch Backend ---
-- 
2.43.0


From b419ed20f28c2be0cd2b211fccb89cfb3d0e1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 058/183] fix: periodic FFT convolution with a kernel larger
 than the array

The result had the shape of the kernel and the array was padded with zeros instead of repeated.
---
 src/tools21cm/fft_functions.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 226b6dd..bafba6e 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -31,6 +31,19 @@ except ImportError:
     jnp = None
     jax_default_device = None
 
+def _wrap_kernel(kernel, shape):
+    """
+    Fold a kernel that is larger than a periodic array onto the period of the array.
+    """
+    for axis, n in enumerate(shape):
+        k = kernel.shape[axis]
+        if k <= n: continue
+        pad = [(0, 0)]*kernel.ndim
+        pad[axis] = (0, -k % n)
+        kernel = np.pad(kernel, pad)
+        kernel = kernel.reshape(kernel.shape[:axis] + (-1, n) + kernel.shape[axis+1:]).sum(axis=axis)
+    return kernel
+
 def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', device=None):
     """
     Convolve two N-dimensional arrays using FFT.
@@ -64,7 +77,8 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         
     if boundary == 'circular':
         mode = 'same'
-        fsize = tuple(np.maximum(s1, s2).tolist())
+        fsize = tuple(s1.tolist())
+        if np.any(s2 > s1): in2 = _wrap_kernel(np.asarray(in2), fsize)
         do_pad = False
     elif boundary == 'constant':
         fsize = tuple((s1 + s2 - 1).tolist())
-- 
2.43.0


From bd327c036e845fd1b22ffcca19e0cc3ed39d5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 059/183] fix: fftconvolve rejects array-like arguments that
 are not arrays

---
 src/tools21cm/fft_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index bafba6e..5ed6b4a 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -65,7 +65,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
     if boundary not in ['constant', 'circular', 'reflect', 'nearest', 'mirror', 'wrap']:
         raise ValueError("Invalid boundary condition.")
 
-    s1, s2 = np.array(in1.shape), np.array(in2.shape)
+    s1, s2 = np.array(np.shape(in1)), np.array(np.shape(in2))
     
     # Define the axes explicitly for NumPy 2.0 compliance
     calc_axes = tuple(range(len(s1)))
-- 
2.43.0


From de374274e9af9254ecedd423a15aead80498b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 060/183] fix: Fourier phase lost the quadrant and was NaN for
 zero modes

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index de9a65f..c58d175 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -22,7 +22,7 @@ def real_to_fourier_amplitude_phase(data):
         data_fft = fftn(data)
         a, b     = np.real(data_fft), np.imag(data_fft)
         R        = np.sqrt(a**2+b**2)
-        phi      = np.arctan(b/a)
+        phi      = np.arctan2(b, a)
         return R, phi
 
 def get_source_redshifts(source_dir, z_low = None, z_high = None, bracket=False):
-- 
2.43.0


From f335e8edb128ef6604d326b14ff165d28c037f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 061/183] fix: tophat kernels empty or truncated when wider
 than the array

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2a5e27b..c3bd013 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -98,7 +98,7 @@ def tophat_kernel(size, tophat_width):
         '''
         kernel   = np.zeros((size,size))
         center   = kernel.shape[0]/2
-        idx_low  = int(center-np.floor(tophat_width/2.))
+        idx_low  = max(0, int(center-np.floor(tophat_width/2.)))
         idx_high = int(center+np.ceil(tophat_width/2.))
         kernel[idx_low:idx_high, idx_low:idx_high] = 1.
         kernel /= np.sum(kernel)
@@ -122,7 +122,7 @@ def tophat_kernel_3d(size, tophat_width, shape="cube"):
         kernel = np.zeros((size, size, size))
         if shape == "cube":
                 center   = kernel.shape[0]/2 
-                idx_low  = int(center-np.floor(tophat_width/2.))
+                idx_low  = max(0, int(center-np.floor(tophat_width/2.)))
                 idx_high = int(center+np.ceil(tophat_width/2.))
                 kernel[idx_low:idx_high, idx_low:idx_high, idx_low:idx_high ] = 1.
         else:
-- 
2.43.0


From 1f9b3a4ca9d0c25e056c66f1020605787f7e75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 062/183] fix: smooth_tophat was displaced by a cell and not
 periodic for even arrays

The padding by one repeated pixel worked around the misplaced kernel centre of the
periodic convolution for odd sizes, and breaks the periodicity of the array.
---
 src/tools21cm/smoothing.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index c3bd013..34c009d 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -197,15 +197,6 @@ def smooth_tophat(input_array, tophat_width):
                 The smoothed array. A numpy array with the same
                 dimensions as the input.
         '''
-        #For some reason fftconvolve works produces edge effects with
-        #an even number of cells, so we pad the array with an extra pixel
-        #if this is the case
-        if input_array.shape[0] % 2 == 0:
-                from .angular_coordinates import _get_padded_slice
-                padded = _get_padded_slice(input_array, input_array.shape[0]+1)
-                out = smooth_tophat(padded, tophat_width)
-                return out[:-1,:-1]
-        
         kernel = tophat_kernel(input_array.shape[0], tophat_width)
         return smooth_with_kernel(input_array, kernel)
 
-- 
2.43.0


From 6bc41e423cfddccf694b29a17603b68be44ae4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 063/183] fix: smooth_coeval_tophat smoothed one of the angular
 axes as well

The square kernel was applied to the slices that contain the frequency axis, which
smoothed one angular axis and not the other, and the axis loop was wrong for nu_axis=1.
---
 src/tools21cm/smoothing.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 34c009d..c64073a 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -395,7 +395,7 @@ def smooth_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1., nu_axi
 
 def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
         """
-        This smooths the slices perpendicular to the given axis of the cube by tophat filter.
+        This smooths the cube along the given axis by tophat filter.
 
         Parameters:
                 cube (numpy array)  : The data cube that is to be smoothed.
@@ -405,15 +405,12 @@ def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
         Returns:
                 Smoothed_cube
         """
-        kernel = tophat_kernel(cube.shape[nu_axis], width)
-        output_cube = np.zeros(cube.shape)
-        if nu_axis==0:
-                for i in tqdm(range(cube.shape[1]), disable=False if verbose else True):
-                        output_cube[:,i,:] = smooth_with_kernel(cube[:,i,:], kernel)
-        else:
-                for i in tqdm(range(cube.shape[0]), disable=False if verbose else True):
-                        output_cube[i,:,:] = smooth_with_kernel(cube[i,:,:], kernel)
-        return output_cube
+        n = cube.shape[nu_axis]
+        kernel = tophat_kernel(n, width)[n//2]
+        kernel /= np.sum(kernel)
+        shape = [1, 1, 1]
+        shape[nu_axis] = n
+        return smooth_with_kernel(cube, kernel.reshape(shape))
 
 def smooth_coeval_gauss(cube, fwhm, nu_axis):
         """
-- 
2.43.0


From 26af56f0340a5b3aae80df24402a80641f3767be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 064/183] fix: smooth_lightcone fails for a single lowest
 redshift

---
 src/tools21cm/smoothing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index c64073a..c4d9d58 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -339,10 +339,10 @@ def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2., ra
                 (Smoothed_lightcone, redshifts) 
         """
         if (not box_size_mpc): box_size_mpc=conv.LB
-        if(z_array.shape[0] == lightcone.shape[2]):
-                input_redshifts = z_array.copy()
+        if(np.size(z_array) == lightcone.shape[2]):
+                input_redshifts = np.array(z_array)
         else:
-                z_low = z_array
+                z_low = np.min(z_array)
                 cell_size = 1.0*box_size_mpc/lightcone.shape[0]
                 distances = cm.z_to_cdist(z_low) + np.arange(lightcone.shape[2])*cell_size
                 input_redshifts = cm.cdist_to_z(distances)
-- 
2.43.0


From d7c0a64fc718972fdfb51fc5a05b74855d02d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 065/183] fix: smooth_lightcone_uv_threshold returned the error
 instead of raising it

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index c4d9d58..0094592 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -483,7 +483,7 @@ def smooth_lightcone_uv_threshold(lightcone, uv_box, threshold=0.0):
                 Smoothed lightcone.
         """
         if not isinstance(threshold, float) or threshold < 0.0:
-                return ValueError("Threshold value should be a positive float.")
+                raise ValueError("Threshold value should be a positive float.")
         
         lightcone = np.fft.fft2(lightcone, axes = (0, 1))
         uv_bool = uv_box < threshold
-- 
2.43.0


From 681ddafbba290653612245631925dee1cda555cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 066/183] fix: convolve_uvmap_coeval permuted the axes and used
 an undefined array

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 0094592..31736e0 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -562,7 +562,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
-                uv_map, N_ant  = get_uv_map(array.shape[0],
+                uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
                                                 filename=filename,
                                                 total_int_time=total_int_time,
@@ -578,7 +578,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         output_ang_res = output_dtheta*cm.z_to_cdist(z) * cube.shape[0]/box_size_mpc
         output_cube = smooth_coeval_tophat(cube, output_ang_res*ratio, nu_axis=nu_axis, verbose=verbose)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
-        output_cube = np.array([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)])
+        output_cube = np.stack([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)], axis=2)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
         return output_cube
 
-- 
2.43.0


From 028863ec5d85457f7f1c8e02be17f3637a37bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 067/183] fix: smooth_line amplitude of hamming and hanning
 windows and integer custom windows

---
 src/tools21cm/smoothing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 31736e0..dc9c789 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -631,12 +631,14 @@ def smooth_line(y, window=3, kind='tophat'):
             window = window / window.sum()
         elif kind.lower() == 'hamming':
             window = np.hamming(window)
+            window /= np.sum(window)
         elif kind.lower() == 'hanning':
             window = np.hanning(window)
+            window /= np.sum(window)
         else:
             raise ValueError(f"Unsupported window kind: '{kind}'. Choose from 'tophat', 'gaussian', 'triangular', 'hamming', or 'hanning'.")
     elif isinstance(window, (list, np.ndarray)):
-        window = np.array(window)
+        window = np.array(window, dtype=float)
         window /= np.sum(window)  # Ensure the custom window is normalized
     else:
         raise ValueError("Window must be an integer or an array-like object.")
-- 
2.43.0


From 59c04ec0e162b32301c214520d5156ce5d4f4a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 068/183] fix: smooth_line returned more points than it was
 given for wide windows

---
 src/tools21cm/smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index dc9c789..def85b4 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -643,5 +643,6 @@ def smooth_line(y, window=3, kind='tophat'):
     else:
         raise ValueError("Window must be an integer or an array-like object.")
 
-    y_smooth = np.convolve(y, window, mode='same')
+    start = (len(window) - 1) // 2
+    y_smooth = np.convolve(y, window, mode='full')[start:start+len(y)]
     return y_smooth
-- 
2.43.0


From 61ff264d30e4299608365ba8ff5ef303ff4fca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 069/183] fix: beam_convolve failed on fractional indices and
 cropped the map

---
 src/tools21cm/beam_convolve.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/beam_convolve.py b/src/tools21cm/beam_convolve.py
index a98774e..8bd95bb 100755
--- a/src/tools21cm/beam_convolve.py
+++ b/src/tools21cm/beam_convolve.py
@@ -50,9 +50,7 @@ def beam_convolve(input_array, z, fov_mpc, beam_w = None, max_baseline = None, \
 	out =  signal.fftconvolve(input_array, kernel, mode='same')
 	# out =  fftconvolve(input_array, kernel)
 
-	#fftconvolve makes the output twice the size, so return only the central part	
-	ox = out.shape[0]
-	return out[ox*0.25:ox*0.75, ox*0.25:ox*0.75]
+	return out
 
 
 
-- 
2.43.0


From 617277c54c26e4f2303ed57a9fec62eb13baab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 070/183] fix: beam_convolve displaced maps with an even number
 of cells

scipy centres the output on (n-1)//2, the kernel is centred on n//2.
---
 src/tools21cm/beam_convolve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools21cm/beam_convolve.py b/src/tools21cm/beam_convolve.py
index 8bd95bb..aac1b2e 100755
--- a/src/tools21cm/beam_convolve.py
+++ b/src/tools21cm/beam_convolve.py
@@ -47,8 +47,7 @@ def beam_convolve(input_array, z, fov_mpc, beam_w = None, max_baseline = None, \
 	else:
 		raise Exception('Unknown beamshape: %g' % beamshape)
 
-	out =  signal.fftconvolve(input_array, kernel, mode='same')
-	# out =  fftconvolve(input_array, kernel)
+	out = fftconvolve(input_array, kernel, mode='same', boundary='constant')
 
 	return out
 
-- 
2.43.0


From 630401d6a2da8f0353ff195ad8c00e5fbca9cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 071/183] fix: smooth_lightcone_tophat averaged one slice
 beyond the upper end of the window

Rounding the upper end up took in a slice outside z +- dz/2, which displaces the
smoothed lightcone; a window narrower than a slice averaged two of them.
---
 src/tools21cm/smoothing.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index def85b4..502c18b 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -442,11 +442,8 @@ def smooth_lightcone_tophat(lightcone, redshifts, dz, verbose=True):
         """
         output_lightcone = np.zeros(lightcone.shape)
         for i in tqdm(range(output_lightcone.shape[2]), disable=False if verbose else True):
-                z_out_low  = redshifts[i]-dz[i]/2
-                z_out_high = redshifts[i]+dz[i]/2
-                idx_low  = int(np.ceil(find_idx(redshifts, z_out_low)))
-                idx_high = int(np.ceil(find_idx(redshifts, z_out_high)))
-                output_lightcone[:,:,i] = np.mean(lightcone[:,:,idx_low:idx_high+1], axis=2)
+                inside = np.abs(redshifts-redshifts[i]) <= dz[i]/2
+                output_lightcone[:,:,i] = np.mean(lightcone[:,:,inside], axis=2)
         return output_lightcone
 
 def smooth_lightcone_gauss(lightcone,fwhm,nu_axis=2):
-- 
2.43.0


From b02dd3426ee1bf56851532408dafc1b20a3865bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 072/183] fix: writing a density file from cgs densities failed

---
 src/tools21cm/density_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 305b9d6..b653c35 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -95,7 +95,7 @@ class DensityFile:
 			self.cgs_density = cgs_density
 			self.mesh_x, self.mesh_y, self.mesh_z = self.cgs_density.shape
 			conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
-			self.raw_density = cgs_density/self.conv_factor
+			self.raw_density = cgs_density/conv_factor
 		else:
 			pass 
 
-- 
2.43.0


From 58ee3912c1fe56058b2aea119b580c38e6ce85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 073/183] fix: old-format temper files were returned flat

---
 src/tools21cm/temper_file.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 3af9e2f..8b64446 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -47,11 +47,8 @@ class TemperFile:
         temp_mesh = np.fromfile(f, count=6, dtype='int32')
         self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
-        if old_format:
-                self.temper = np.fromfile(f, dtype='float32')
-        else:
-                self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
+        self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From f7d2200710a4f5f6a58f50d0c17fcb050d0036e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 074/183] fix: old-format irate files were returned flat

---
 src/tools21cm/irate_file.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/irate_file.py b/src/tools21cm/irate_file.py
index 3b72a9a..595d21b 100755
--- a/src/tools21cm/irate_file.py
+++ b/src/tools21cm/irate_file.py
@@ -51,11 +51,8 @@ class IonRateFile:
             temp_mesh = np.fromfile(f, count=6, dtype='int32')
             self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
-        if old_format:
-                self.irate = np.fromfile(f, dtype='float32')
-        else:
-                self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
+        self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From 02030e45d07e73b6740c415f78466dbc0a6a2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 075/183] fix: read_cbin only used three of the mesh sizes in
 the header

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index c58d175..abf7dc0 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -182,8 +182,8 @@ def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
 
         counter=dimensions+3 if records else dimensions 
         header = np.fromfile(f, count=counter, dtype='int32')
-        if records: temp_mesh=header[1:4]
-        else: temp_mesh=header[0:3]
+        if records: temp_mesh=header[1:dimensions+1]
+        else: temp_mesh=header[0:dimensions]
         
         datatype = np.float32 if bits == 32 else np.float64
         data = np.fromfile(f, dtype=datatype, count=np.prod(temp_mesh))
-- 
2.43.0


From 57ac89be56fbc5cc841115366caea7afab4136fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 076/183] fix: reading and writing fits files

---
 src/tools21cm/helper_functions.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index abf7dc0..2861807 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -274,17 +274,14 @@ def read_fits(filename, header=True):
         '''
         try:
                 import pyfits as pf
-                hdulist = pf.open(filename)
-                header = hdulist[0].header
-                data = hdulist[0].data.astype('float64')
-        except:
-                from astropy.io import fits
-                fits_image_filename = fits.util.get_testdata_filepath(filename)
-                hdul = fits.open(fits_image_filename)
-                header = hdul[0].header
-                data = hdul[1].data.astype('float64')
-
-        if header: return data, header
+        except ImportError:
+                from astropy.io import fits as pf
+        hdulist = pf.open(filename)
+        file_header = hdulist[0].header
+        data = hdulist[0].data.astype('float64')
+        hdulist.close()
+
+        if header: return data, file_header
         else: return data
 
 
@@ -307,13 +304,11 @@ def save_fits(data, filename, header=None):
 
         try:
                 import pyfits as pf
-                if type(header)==pf.header.Header: pf.writeto(filename, save_data, header)
-                else: pf.writeto(filename, save_data)
-        except:
-                from astropy.io import fits
-                hdu = pf.PrimaryHDU(save_data.astype('float64'))
-                hdulist = pf.HDUList([hdu])
-                hdulist.writeto(filename, clobber=True)
+        except ImportError:
+                from astropy.io import fits as pf
+        if not isinstance(header, pf.Header): header = None
+        if os.path.exists(filename): os.remove(filename)
+        pf.writeto(filename, save_data.astype('float64'), header)
 
         
 
-- 
2.43.0


From c44cd0373dd7f7f153eeba84a50f901dbac4049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 077/183] fix: mesh size of temperature and brightness
 temperature files

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 2861807..81b01e8 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -431,14 +431,14 @@ def get_mesh_size(filename):
                 temp_mesh = np.fromfile(f, count=6, dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'temper':
-                temp_mesh = np.fromfile(f,count=3,dtype='int32')
+                temp_mesh = np.fromfile(f,count=6,dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'density':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
         elif datatype == 'cbin':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
         elif datatype == 'dbt':
-                mesh_size = np.array([250,250,250])
+                mesh_size = np.array(np.load(f, mmap_mode=None).shape)
         else:
                 raise Exception('Could not determine mesh for filetype %s' % datatype)
         f.close()
-- 
2.43.0


From 01e4664d3afbea054c47c30b01023d2520daa246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 078/183] fix: dictionary formats are case sensitive when
 writing

---
 src/tools21cm/read_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 40be7e7..132827b 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -246,7 +246,8 @@ def write_dictionary_data(data_dict, filename, format=None):
 	Supports: pickle, json, yaml, hdf5, npz, netcdf (xarray), csv, xlsx
 	"""
 	if format is None:
-		format = os.path.splitext(filename)[1].lstrip('.').lower()
+		format = os.path.splitext(filename)[1].lstrip('.')
+	format = format.lower()
 
 	if format in ['pickle', 'pkl']:
 		import pickle
-- 
2.43.0


From a3d86fb454ffdc158c6d641b9755750ac4edabdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 079/183] fix: dictionaries written as npz were stored under
 another file name

---
 src/tools21cm/read_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 132827b..ee709cb 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -282,7 +282,8 @@ def write_dictionary_data(data_dict, filename, format=None):
 			recursive_save(f, data_dict)
 
 	elif format == 'npz':
-		np.savez(filename, **data_dict)
+		with open(filename, 'wb') as f:
+			np.savez(f, **data_dict)
 
 	elif format in ['nc', 'netcdf']:
 		import xarray as xr
-- 
2.43.0


From cd5986866164ddcf5348e25f39add44493384b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 080/183] fix: sources of both mass ranges could not be read

---
 src/tools21cm/source_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c7c85bc..5d16d5f 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -67,7 +67,7 @@ class SourceFile:
             idx = 2*i+1
             text = lines[idx].split()
             self.sources_list[i,:3] = np.array(text[:3], dtype=int)-1
-            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(float(text[idx_mass]))) # Msun
+            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(np.array(text, dtype=float)[idx_mass])) # Msun
 
         print_msg('...done')
 
-- 
2.43.0


From e16ec201113e6597e8454ba596a3fc2bd85d9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 081/183] fix: sources that share a cell were lost when gridded

---
 src/tools21cm/source_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index 5d16d5f..f54752b 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -84,7 +84,7 @@ class SourceFile:
         # loop over list
         for n in range(self.sources_list.shape[0]):
             i, j, k = self.sources_list[n,:3].astype(int)
-            self.sources_coeval[i,j,k] = self.sources_list[n,3]  # Msun
+            self.sources_coeval[i,j,k] += self.sources_list[n,3:].sum()  # Msun
         
         print_msg('...done')
 
-- 
2.43.0


From 54f8270b07d12e79ea3333a278485c38e71402b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 082/183] fix: written source files could not be read back

The masses were converted from grid masses instead of to grid masses and printed with
few digits, and the column of the low mass sources was missing.
---
 src/tools21cm/source_file.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index f54752b..0e467a2 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -117,40 +117,28 @@ class SourceFile:
 
                 # Determine which column contains the mass for writing
                 # This depends on how sources_list was populated (by read_from_file or manually).
-                # The original file format has coordinates as 1-indexed integers and log10 of grid mass.
-                
-                # Default to 'hm' column if self.mass is 'hm' or not specified,
-                # otherwise 'lm' column if self.mass is 'lm'.
-                # If self.sources_list has 5 columns, it means both hm and lm are stored.
-                # We need to decide which one to write back to the file format.
-                # Assuming the original file structure implies a single mass value per source line.
-                # Let's prioritize writing the 'hm' mass if available (index 3 for 5-col array).
+                # The original file format has coordinates as 1-indexed integers followed by the
+                # high-mass and the low-mass columns in grid mass units.
 
                 for i in range(nr_src):
                     # Convert coordinates back to 1-indexed integers for writing
                     x, y, z = self.sources_list[i,:3].astype(int) + 1 
                     
                     # Get the mass value(s) in Msun
-                    current_mass_msun = None
                     if self.sources_list.shape[1] == 5: # (x, y, z, hm_mass, lm_mass)
-                        # Decide which mass to write back: if self.mass is specified use that, else default to hm
-                        if self.mass == 'lm':
-                            current_mass_msun = self.sources_list[i,4] # Use lm_mass
-                        else: # self.mass is 'hm' or default
-                            current_mass_msun = self.sources_list[i,3] # Use hm_mass
+                        hm_mass, lm_mass = self.sources_list[i,3:]
                     elif self.sources_list.shape[1] == 4: # (x, y, z, mass) for hm or lm
-                        current_mass_msun = self.sources_list[i,3]
+                        hm_mass, lm_mass = (0., self.sources_list[i,3]) if self.mass == 'lm' else (self.sources_list[i,3], 0.)
                     else:
                         raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
 
-                    # Convert Msun back to log10 of grid mass as expected by the file format
-                    # Ensure it's not log10(0) if mass is 0, to avoid errors.
-                    log10_grid_mass = conv.gridmass_to_msol(current_mass_msun) if current_mass_msun > 0 else -99.0 # Use a placeholder for zero mass
+                    # Convert Msun back to grid masses as expected by the file format
+                    msol_per_grid_mass = conv.M_grid*const.solar_masses_per_gram
 
-                    # Write each source line: x y z log10(grid_mass)
-                    # The original file format has two lines per source, the first is coordinates and log10 grid mass
+                    # Write each source line: x y z hm_mass lm_mass
+                    # The original file format has two lines per source, the first is coordinates and grid masses
                     # and the second is empty. Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
-                    f.write(f"{x} {y} {z} {log10_grid_mass:.6f}\n") # Using .6f for precision
+                    f.write(f"{x} {y} {z} {hm_mass/msol_per_grid_mass:.9e} {lm_mass/msol_per_grid_mass:.9e}\n")
                     f.write("\n") # Empty line as per typical C2Ray source file format
 
             print_msg('...done')
-- 
2.43.0


From 53dd549b27e57072d550781e549ac5cfc8762332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 083/183] fix: write_to_file discarded the loaded sources_list

---
 src/tools21cm/source_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index 0e467a2..dbd9733 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -101,7 +101,7 @@ class SourceFile:
         Returns:
             Nothing
         '''
-        self.sources_list = sources_list
+        if sources_list is not None: self.sources_list = sources_list
         if self.sources_list is None or self.sources_list.shape[0] == 0:
             print_msg("Error: No sources_list data to write. Please load a source file first or set the 'sources_list' attribute.")
             return
-- 
2.43.0


From edf1da76c679dfcac264ab52b1908239126854db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 084/183] fix: write_to_file discarded the loaded raw_clumping

---
 src/tools21cm/density_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index b653c35..71adb7a 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -189,7 +189,7 @@ class ClumpingFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_clumping = raw_clumping
+		if raw_clumping is not None: self.raw_clumping = raw_clumping
 		if self.raw_clumping is None:
 			print_msg("Error: No raw clumping data to write. Please load a clumping file first or set the 'raw_clumping' attribute.")
 			return
-- 
2.43.0


From 11cbc134cbe8cc95a1ae7e98e01c558771e0ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 085/183] fix: write_to_file discarded the loaded raw_velocity

---
 src/tools21cm/vel_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 3c39ef8..9294d61 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -79,7 +79,7 @@ class VelocityFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_velocity = raw_velocity
+		if raw_velocity is not None: self.raw_velocity = raw_velocity
 		if self.raw_velocity is None:
 			print_msg("Error: No raw velocity data to write. Please load a velocity file first or set the 'raw_velocity' attribute.")
 			return
-- 
2.43.0


From 67f48fa463ef6193d34de629a4db97dee98d5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 086/183] fix: failed writes of simulation files went unnoticed

---
 src/tools21cm/density_file.py | 4 +++-
 src/tools21cm/source_file.py  | 3 ++-
 src/tools21cm/vel_file.py     | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 71adb7a..0c5e08b 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -124,6 +124,7 @@ class DensityFile:
 
 		except Exception as e:
 			print_msg(f"Error writing density file: {e}")
+			raise
 			
 
 class ClumpingFile:
@@ -217,4 +218,5 @@ class ClumpingFile:
 			print_msg('...done')
 
 		except Exception as e:
-			print_msg(f"Error writing clumping file: {e}")
\ No newline at end of file
+			print_msg(f"Error writing clumping file: {e}")
+			raise
\ No newline at end of file
diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index dbd9733..fdeb0ab 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -144,4 +144,5 @@ class SourceFile:
             print_msg('...done')
 
         except Exception as e:
-            print_msg(f"Error writing Source file: {e}")
\ No newline at end of file
+            print_msg(f"Error writing Source file: {e}")
+            raise
\ No newline at end of file
diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 9294d61..a30ab36 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -108,6 +108,7 @@ class VelocityFile:
 
 		except Exception as e:
 			print_msg(f"Error writing velocity file: {e}")
+			raise
 
 	def get_kms_from_density(self, density):
 		''' 
-- 
2.43.0


From 5add1e77938712d2890ece0e908e76d085c2dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 087/183] fix: the maximum number of Rockstar halos was
 compared the wrong way round

---
 src/tools21cm/halo_list.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 344066a..a949022 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -95,7 +95,7 @@ class HaloRockstar:
 				vals = line.split()
 				
 				#Create a halo and add it to the list
-				if(len(self.halos) > max_select_number):
+				if(max_select_number < 0 or len(self.halos) < max_select_number):
 					halo = Halo()
 					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
 					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
@@ -107,7 +107,8 @@ class HaloRockstar:
 					halo.mp = int(round(halo.m / self.part_mass, 0))
 					self.halos.append(halo)
 				else:
-					break
+					fileinput.close()
+					return False
 		
 		fileinput.close()
 		return True
-- 
2.43.0


From 5ef9a29df74d64e041f8eb0f8b3132dcc2e5ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 088/183] fix: an unknown Rockstar format was not refused

---
 src/tools21cm/halo_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index a949022..84ba77c 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -79,7 +79,8 @@ class HaloRockstar:
 					lnr_part = 6
 					lnr_vals = 19
 				else:
-					ValueError('ERROR: wrong file format (must be .list or .ascii).')
+					fileinput.close()
+					raise ValueError('ERROR: wrong file format (must be .list or .ascii).')
 			elif(linenumber == 1):
 				# Store the redshift from the file header
 				a = float(line.split()[-1])
-- 
2.43.0


From efb2aed24c0c3a23bc0f9923b5e3605d4c0a3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 089/183] fix: reading a second Rockstar or Cube3PM catalogue
 kept the halos of the first

---
 src/tools21cm/halo_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 84ba77c..bf906d1 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -47,6 +47,7 @@ class HaloRockstar:
 			True if all the halos were read. False otherwise.
 		'''
 
+		self.halos = []
 		print_msg('Reading Rockstar Halo Catalog %s...' % filename)
 		self.filename = filename
 		
@@ -371,6 +372,7 @@ class HaloCubeP3M:
 			filesname = ['%snode%d/%.3fhalo%d.dat' %(filespath, node, self.z, node)]
 
 		self.nhalo = 0
+		self.halos = []
 
 		for fn in filesname:
 			f = open(fn, 'rb')
-- 
2.43.0


From afadc14ea38ff0ebf8e783a456b5b1c1a12f512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 090/183] fix: negative angular momentum components of halos
 became NaN

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index bf906d1..41606f4 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -245,7 +245,7 @@ class HaloCubeP3MFull:
 						halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
-						halo.l   = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+						halo.l   = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)) * conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 						halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
 						halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
 						halo.mp = float(vals[17])
@@ -410,7 +410,7 @@ class HaloCubeP3M:
 					halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
 					halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
 					halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
-					halo.l = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+					halo.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)) * conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 					halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
 
 				self.halos.append(halo)
-- 
2.43.0


From 5f54ebe286149ce6430bf3a46e21dae79da192e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 091/183] fix: redshift zero was taken for a missing redshift

---
 src/tools21cm/halo_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 41606f4..ba1942a 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -316,7 +316,7 @@ class HaloCubeP3M:
 		'''
 
 		self.halos = []
-		if not z:
+		if z is None:
 			raise NameError('Redshift value not specified, please define.')
 
 		if filespath:
-- 
2.43.0


From da4f92bbeef34f5c9b68c94f54717295595808db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 092/183] fix: an upper mass limit of zero crashed

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index ba1942a..d28a953 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -210,7 +210,7 @@ class HaloCubeP3MFull:
 		tstart = time()
 		
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
@@ -501,7 +501,7 @@ class HaloList:
 		#Read the file line by line, since it's large
 		linenumber = 1
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-- 
2.43.0


From e6678908f014c41c97f346ed85a65d2ea67381e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 093/183] fix: halos were gridded on the range of their
 positions instead of the box

---
 src/tools21cm/nbody_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 4a036fe..3d2376c 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -248,7 +248,8 @@ class Halo2Grid:
 		# https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.binned_statistic_dd.html
 		statistic = kwargs.get('statistic', 'sum')
 		bins = kwargs.get('bins', self.n_grid)
-		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins)
+		ranges = kwargs.get('range', [[0, self.n_grid]]*np.shape(positions)[1])
+		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=ranges)
 		return binned_mass, bin_edges, bin_num
 	
 	def halo_mass_on_grid(self, **kwargs):
-- 
2.43.0


From cc8c8c527ea4c122ec2166baa91d382b907b4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 094/183] fix: halo_mass_on_grid used the positions as masses

---
 src/tools21cm/nbody_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 3d2376c..73b4e20 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -201,6 +201,7 @@ class Halo2Grid:
 		self.mpc_to_cm = 3.085677581491367e+24 # in cm
 		self.Msun_to_g = 1.988409870698051e+33 # in gram
 		self.pos_grid = None
+		self.mass_Msun = None
 
 	def set_halo_pos(self, pos, unit=None):
 		if unit.lower()=='cm':
@@ -257,7 +258,7 @@ class Halo2Grid:
 		if pos is None:
 			print('Provide the halo positions via parameter "pos".')
 			return None
-		mass = kwargs.get('mass', self.pos_grid)
+		mass = kwargs.get('mass', self.mass_Msun)
 		if mass is None:
 			print('Provide the halo masses via parameter "mass".')
 			return None
-- 
2.43.0


From 1a1e51f6e75f66c0bd2574f15c09031dd28ab4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 095/183] fix: halo positions and masses could not be set
 without a unit

---
 src/tools21cm/nbody_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 73b4e20..da26124 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -204,6 +204,7 @@ class Halo2Grid:
 		self.mass_Msun = None
 
 	def set_halo_pos(self, pos, unit=None):
+		if unit is None: unit = 'grid'
 		if unit.lower()=='cm':
 			self.pos_cm_to_grid(pos) 
 		elif unit.lower()=='mpc':
@@ -212,6 +213,7 @@ class Halo2Grid:
 			self.pos_grid = pos 
 
 	def set_halo_mass(self, mass, unit=None):
+		if unit is None: unit = 'msun'
 		if unit.lower()=='kg':
 			self.mass_Msun = mass*1000/self.Msun_to_g
 		elif unit.lower() in ['gram','g']:
-- 
2.43.0


From d65c89d60f1b7772de09b6a2d721659d94f7733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 096/183] fix: units of the halo positions were judged from the
 masses

---
 src/tools21cm/line_intensity.py | 2 +-
 src/tools21cm/nbody_file.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/line_intensity.py b/src/tools21cm/line_intensity.py
index 0960084..dd3e648 100755
--- a/src/tools21cm/line_intensity.py
+++ b/src/tools21cm/line_intensity.py
@@ -49,7 +49,7 @@ def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None,
     else:
         print('The provided halo mass is assumed to be in Msun units.')
         mhalo = mass*units.Msun
-    if isinstance(mass, units.quantity.Quantity):
+    if isinstance(pos_xyz, units.quantity.Quantity):
         srcpos = pos_xyz.to('Mpc')
     else:
         print('The provided halo mass is assumed to be in Mpc units.')
diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index da26124..5df3669 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -312,7 +312,7 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 	else:
 		print('The provided halo mass is assumed to be in Msun units.')
 		mhalo_msun = mass 
-	if isinstance(mass, astropy.units.quantity.Quantity):
+	if isinstance(pos_xyz, astropy.units.quantity.Quantity):
 		srcpos_mpc = pos_xyz.to('Mpc').value
 	else:
 		print('The provided halo mass is assumed to be in Mpc units.')
-- 
2.43.0


From 1589e5852ebd1109906978bc9935bea08549a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 097/183] fix: gridding halos in a box with units failed

---
 src/tools21cm/nbody_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 5df3669..657bf55 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -318,6 +318,9 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 		print('The provided halo mass is assumed to be in Mpc units.')
 		srcpos_mpc = pos_xyz 
 
+	if isinstance(box_dim, astropy.units.quantity.Quantity):
+		box_dim = box_dim.to('Mpc').value
+
 	hg = Halo2Grid(box_len=box_dim, n_grid=n_grid)
 	hg.set_halo_pos(srcpos_mpc, unit='mpc')
 	hg.set_halo_mass(mhalo_msun, unit='Msun')
-- 
2.43.0


From 90cf8ec7369456bdc148eab779f576c26d1d49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 098/183] fix: particle-mass conversions: wrong function
 called, arrays with units failed or changed in place, cosmologies not
 imported

---
 src/tools21cm/nbody_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/nbody_tools.py b/src/tools21cm/nbody_tools.py
index accddf3..952017c 100755
--- a/src/tools21cm/nbody_tools.py
+++ b/src/tools21cm/nbody_tools.py
@@ -1,5 +1,6 @@
 import numpy as np 
 import astropy
+import astropy.cosmology
 from astropy import units
 
 def _set_cosmo(cosmo):
@@ -27,10 +28,10 @@ def _set_cosmo(cosmo):
 def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
     cosmo = _set_cosmo(cosmo)
     if not isinstance(particle_mass, units.Quantity): 
-        particle_mass *= units.Msun 
+        particle_mass = particle_mass*units.Msun 
         print('As the particle mass provided is not using Astropy units, Msun is assumed here.')
     if not isinstance(Lbox, units.Quantity): 
-        Lbox *= units.Mpc 
+        Lbox = Lbox*units.Mpc 
         print('As the box length provided is not using Astropy units, Mpc is assumed here.')
     particle_number = (np.cbrt(cosmo.critical_density0*cosmo.Om0/particle_mass)*Lbox).to('')
     print('Particles | along each direction = {} | total = {}'.format(particle_number,particle_number**3))
@@ -38,13 +39,13 @@ def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
 
 def halo_mass_to_particle_number(Lbox, halo_mass, particles_in_halo, cosmo='Planck18'):
     particle_mass = halo_mass/particles_in_halo
-    return particle_number_to_particle_mass(Lbox, particle_mass, cosmo=cosmo)
+    return ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo=cosmo)
 
 def particle_number_to_particle_mass(Lbox, particle_each_direction=None, particle_total=None, cosmo='Planck18'):
     particle_number = particle_each_direction if particle_each_direction is not None else np.cbrt(particle_total)
     cosmo = _set_cosmo(cosmo)
     if not isinstance(Lbox, units.Quantity): 
-        Lbox *= units.Mpc 
+        Lbox = Lbox*units.Mpc 
         print('As the box length provided is not using Astropy units, Mpc is assumed here.')
     particle_mass = cosmo.critical_density0*cosmo.Om0*(Lbox/particle_number)**3
     return particle_mass.to('Msun')
-- 
2.43.0


From 3492ba99607207a1aa91bd110d2997a46d6b4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 099/183] fix: mass unit conversions overflowed for
 single-precision masses

---
 src/tools21cm/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index ac939b4..5e921bd 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -104,4 +104,4 @@ def gridmass_to_msol(grid_mass):
 	Returns:
 		The mass in log10(Msol) 
 	'''
-	return np.log10(grid_mass*M_grid*const.solar_masses_per_gram)
+	return np.log10(grid_mass*(M_grid*const.solar_masses_per_gram))
-- 
2.43.0


From a212cfc355260fb98efcfe9f452550dba550a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 100/183] fix: fof lost the region when every cell belongs to
 it

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59e10b1..f1821eb 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -40,7 +40,7 @@ def fof(data, xth=0.5, connectivity=1):
 		from skimage import morphology
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
-		size_list = size_list[1:]
+		size_list = size_list[elements>0]
 	else: out_map, size_list = FoF_search(data, xth)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
-- 
2.43.0


From 4a6b0d2ac579f4489a6251c3dda6c7f0afe9fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 101/183] fix: friends-of-friends search without scikit-image
 found nothing

---
 src/tools21cm/Friends_of_Friends.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/Friends_of_Friends.py b/src/tools21cm/Friends_of_Friends.py
index f1c6100..12f7e43 100755
--- a/src/tools21cm/Friends_of_Friends.py
+++ b/src/tools21cm/Friends_of_Friends.py
@@ -10,8 +10,7 @@ sizes_list = ast.literal_eval(sizes_string)
 
 import numpy as np
 from itertools import count
-#from Queue import Queue
-from multiprocessing import Queue
+from collections import deque
 
 
 def FoF_search(array, threshold):
@@ -29,29 +28,29 @@ def FoF_search(array, threshold):
                 yield tuple(new_coordinate)
 
     out_map = np.zeros(array.shape, dtype=int)   # creates an array with the same shape as the input search array
-    possibilities = zip(*np.where(array > threshold))  # creates a list of indices of points above the threshold
+    possibilities = list(zip(*np.where(array > threshold)))  # creates a list of indices of points above the threshold
     poss_set = set(possibilities)
     
     def recursive_search(point, current_group, currentsize):     # function to calculate group membership of a point
         for testPoint in cycle_through_options(point):
             if testPoint in poss_set and not out_map[testPoint]:
                 out_map[testPoint] = current_group
-                q.put(testPoint)
+                q.append(testPoint)
                 currentsize += 1
         return currentsize
     c = count()
     #c.next()
     next(c)
     size_list = []
-    q = Queue()             # initialise a queue
+    q = deque()             # initialise a queue
     for p in possibilities:     # start cycling through possible points
         if not out_map[p]:           # if the point has not already been searched,
             group = next(c)        # start a new group number
             out_map[p] = group       # assign the corresponding point in the group map to this group
-            q.put(p)                # put the point in the queue
+            q.append(p)             # put the point in the queue
             s = 1                   # s contains the new group size
-            while not q.empty():    # cycle till queue is empty
-                s = recursive_search(q.get(), group, s)  # search each neighbour recursively
+            while q:                # cycle till queue is empty
+                s = recursive_search(q.popleft(), group, s)  # search each neighbour recursively
             size_list.append(s)     # add size of group to a list
     return out_map, np.array(size_list)
 
-- 
2.43.0


From 4279492602d780d33e478f10a62bffd4a43f17ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 102/183] fix: fof without scikit-image applied the threshold
 to the mask

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index f1821eb..fdac98c 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -41,7 +41,7 @@ def fof(data, xth=0.5, connectivity=1):
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
 		size_list = size_list[elements>0]
-	else: out_map, size_list = FoF_search(data, xth)
+	else: out_map, size_list = FoF_search(data, 0.5)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
 
-- 
2.43.0


From 37fa13ce5199c2f4d8efc8e171b8aba2693b25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 103/183] fix: granulometry and watershed sizes used removed
 numpy aliases

---
 src/tools21cm/bubble_stats.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index fdac98c..89b4794 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -418,7 +418,7 @@ def disk_structure(n):
     x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
     mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
     struct[mask] = 1
-    return struct.astype(np.bool)
+    return struct.astype(bool)
 
 
 def granulometry_CDF(data, sizes=None, verbose=True, n_jobs=1):
@@ -498,18 +498,18 @@ def _granulometry(data, n_jobs=1, verbose=True):
         x, y = np.indices((2 * n + 1, 2 * n + 1))
         mask = (x - n)**2 + (y - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
     def ball(n):
         struct = np.zeros((2*n+1, 2*n+1, 2*n+1))
         x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
         mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
 
     s = max(data.shape)
     dim   = data.ndim
-    pixel = range(np.int(s/2))
-    area0 = np.float(data.sum())
+    pixel = range(int(s/2))
+    area0 = float(data.sum())
     area  = np.zeros_like(pixel)
 
     def func(n):
@@ -612,7 +612,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
 	r_list = np.cbrt(3*uniq[0]/4/np.pi)
-	r_pixl = np.arange(0, np.int(r_list.max()+2), 1)-0.5 
+	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From 8934762d1a89c31664147a5f0e9ced0501ac0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 104/183] fix: watershed size distribution used the labels
 instead of the volumes

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 89b4794..f068446 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -611,7 +611,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	if n_jobs>1: print('Parallelization not implemented yet.')
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
-	r_list = np.cbrt(3*uniq[0]/4/np.pi)
+	r_list = np.cbrt(3*uniq[1]/4/np.pi)
 	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
-- 
2.43.0


From 2822274eda014f0a510a5d77f919e991672d5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 105/183] fix: watershed size distribution left out the largest
 regions

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index f068446..97263b7 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -612,7 +612,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
 	r_list = np.cbrt(3*uniq[1]/4/np.pi)
-	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
+	r_pixl = np.arange(0, int(np.ceil(r_list.max()))+2, 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From 3de8b9e4fbeac2927cf95736e15a048403158959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 106/183] fix: mean free path failed when no cell passes a
 threshold above one

---
 src/tools21cm/bubble_stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 97263b7..30bb1eb 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -133,7 +133,7 @@ def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_li
 	if verbose:
 		print(f'{check_box}/{data.size} cells are marked as region of interest (ROI).')
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 2:
 		if verbose: print("MFP method applied on 2D data.")
@@ -207,7 +207,7 @@ def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_poin
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 3:
 		ar = np.zeros_like(data)
@@ -296,7 +296,7 @@ def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verb
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 2:
 		print("MFP method applied on 2D data")
-- 
2.43.0


From 173f755a800101a8a0ddf2ed1ace1f3f4d772e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 107/183] fix: mean free path from a point given as an array
 failed

---
 src/tools21cm/mfp_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 845bb60..7523506 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -75,13 +75,13 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
     ms = sin_thetas * sin_phis
     ns = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str):
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys, zs = loc[rand_loc, 0], loc[rand_loc, 1], loc[rand_loc, 2]
     else:
         xs, ys, zs = point
-        if isinstance(xs, (int,float)):
+        if np.ndim(xs)==0:
             if ar[xs, ys, zs] == 0:
                 print('Given point is outside the structure.')
                 return None
@@ -112,7 +112,7 @@ def mfp2d(arr, xth=0.5, iterations=1000000, verbose=True, point='random'):
     ls = sin_thetas
     ms = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str):
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys = loc[rand_loc, 0], loc[rand_loc, 1]
-- 
2.43.0


From a179fa60d72a4f076811aedb3856e01768d1c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 108/183] fix: mean-free-path rays were not isotropic in 3D

---
 src/tools21cm/mfp_np.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 7523506..e9c6832 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -62,12 +62,11 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
     ar = np.zeros(info, dtype=np.float64)
     ar[arr >= xth] = 1
 
-    thetas = np.random.randint(0, 360, size=iterations)
+    cos_thetas = np.random.uniform(-1, 1, size=iterations)
     phis   = np.random.randint(0, 360, size=iterations)
     
     # Precompute trigonometric values
-    sin_thetas = np.sin(np.radians(thetas))
-    cos_thetas = np.cos(np.radians(thetas))
+    sin_thetas = np.sqrt(1 - cos_thetas**2)
     cos_phis   = np.cos(np.radians(phis))
     sin_phis   = np.sin(np.radians(phis))
     
-- 
2.43.0


From 0252e98753ddf62fdc1d036a21189499e2669ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 109/183] fix: mean-free-path rays longer than the box side
 were lost in 3D

---
 src/tools21cm/mfp_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index e9c6832..093bf88 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -7,7 +7,7 @@ from tqdm import tqdm
 def _ray3d(ar, xs, ys, zs, ls, ms, ns, verbose):
 
     info = ar.shape
-    longest = max(info)
+    longest = int(np.sqrt(3) * max(info))
     num_sz  = np.zeros(longest)
 
     # Ensure coordinates are of type float64 for compatibility with interpolation
-- 
2.43.0


From e60cc2876bba7084d02217fa95d0215e126ef10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 110/183] fix: spherical averages used balls that were off
 centre or stretched

---
 src/tools21cm/spa_np.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/spa_np.py b/src/tools21cm/spa_np.py
index dddbaeb..1519bc8 100755
--- a/src/tools21cm/spa_np.py
+++ b/src/tools21cm/spa_np.py
@@ -1,7 +1,6 @@
 import numpy as np
 from . import usefuls
 from scipy.signal import fftconvolve, convolve
-from skimage import morphology
 from tqdm import tqdm
 
 def spa_np(data, xth=0.95, nscales=30, binning='log', verbose=True, use_fftconvolve=True):
@@ -17,7 +16,9 @@ def spa_np(data, xth=0.95, nscales=30, binning='log', verbose=True, use_fftconvo
 	for i in tqdm(range(nscales), disable=not verbose):
 		ra = Rs_[i]
 		#kernel = put_sphere(np.zeros((Rmx,Rmx,Rmx)), [Rmx/2.,Rmx/2.,Rmx/2.], ra, label=1.)
-		kernel = morphology.ball(ra)
+		nb = int(ra)
+		xx, yy, zz = np.mgrid[-nb:nb+1, -nb:nb+1, -nb:nb+1]
+		kernel = (xx**2+yy**2+zz**2<=ra**2).astype(float)
 		smooth = fftconvolve(data, kernel/kernel.sum(), mode='same') if use_fftconvolve else convolve(data, kernel/kernel.sum(), mode='same')
 		rad[smooth>=xth] = ra
 		#print("Comepleted {0:.1f} %".format(100*(i+1)/nscales))
-- 
2.43.0


From ca287d4e6d1181fa5cf430652bab47c652f7c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 111/183] fix: 26 neighbours counted as 18 in the Betti numbers

---
 src/tools21cm/topology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/topology.py b/src/tools21cm/topology.py
index 3985e78..9cf047a 100755
--- a/src/tools21cm/topology.py
+++ b/src/tools21cm/topology.py
@@ -91,7 +91,7 @@ def betti0(data, thres=0.5, neighbors=6):
 	"""
 	A = (data>thres)*1
 	if neighbors==6 or neighbors==4: b0 = label(A, return_num=1, connectivity=1)[1]#np.unique(fof(B, use_skimage=1)[0]).size-1
-	else: b0 = label(A, return_num=1, connectivity=2)[1]
+	else: b0 = label(A, return_num=1, connectivity=3 if neighbors==26 else 2)[1]
 	return b0
 
 def betti2(data, thres=0.5, neighbors=6):
@@ -112,7 +112,7 @@ def betti2(data, thres=0.5, neighbors=6):
 	"""
 	A = (data>thres)*1
 	if neighbors==6 or neighbors==4: b2 = label(1-A, return_num=1, connectivity=1)[1]#b2 = np.unique(fof(1-B, use_skimage=1)[0]).size-1
-	else: b2 = label(1-A, return_num=1, connectivity=2)[1]
+	else: b2 = label(1-A, return_num=1, connectivity=3 if neighbors==26 else 2)[1]
 	return b2
 
 def betti1(data, thres=0.5, neighbors=6, b0=None, b2=None, chi=None, speed_up='cython', verbose=True, n_jobs=None):
-- 
2.43.0


From 38f3b7985ebdd08abb0a1963c05d0676f42df373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 112/183] fix: superpixels of a cube were found in its first
 two axes only

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 457c0c8..7805644 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -25,7 +25,7 @@ def slic_cube(cube, n_segments=5000, compactness=0.1,
 	except: 
 		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
 					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
-					  slic_zero=True, start_label=0)
+					  slic_zero=True, start_label=0, channel_axis=-1 if multichannel else None)
 	if verbose: print("The output contains the labels with %d segments"%(labels.max()+1))
 	return labels
 
-- 
2.43.0


From 298636212648f828d7ec2265203ac320fd2c204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 113/183] fix: superpixel maps assumed labels without gaps
 starting at zero

---
 src/tools21cm/superpixels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 7805644..8d48e9f 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -43,7 +43,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-	for i in np.unique(y): y2[y==i] = y1[i]
+	for i,lb in enumerate(np.unique(y)): y2[y==lb] = y1[i]
 	y2 = y2 < thres
 	return y2.reshape(data.shape)
 
@@ -227,9 +227,9 @@ def superpixel_map(data, labels, mns=None, verbose=True):
 	if verbose:
 		print('Constructing the superpixel map...')
 		time.sleep(1)
-		for i in tqdm(range(mns.size)): sp_map[labels==i] = mns[i]
+		for i,lb in enumerate(tqdm(np.unique(labels))): sp_map[labels==lb] = mns[i]
 	else:
-		for i in range(mns.size): sp_map[labels==i] = mns[i]
+		for i,lb in enumerate(np.unique(labels)): sp_map[labels==lb] = mns[i]
 	return sp_map
 
 
-- 
2.43.0


From 1130eccf6d96f913997439fd7cc34e1f237368bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 114/183] fix: a stitching threshold of zero was ignored

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 8d48e9f..efc5c44 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -39,7 +39,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 	X1 = data.reshape(-1,1)
 	y  = labels.reshape(-1,1)
 	y1 = [X1[y==i].mean() for i in np.unique(y)]
-	if not thres:
+	if thres is None:
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-- 
2.43.0


From 95519315aaae7f5b3674043046ac3f7e14cd8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 115/183] fix: stitching failed when most superpixels are in
 the lowest bin

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index efc5c44..2b54344 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -81,7 +81,7 @@ def stitch_using_histogram(data, mns, labels, bins='knuth', binary=True, on_supe
 	ht  = histogram(mns, bins=bins)
 	if ht[0].argmax()==0: peaks = argrelextrema(np.hstack((0,ht[0])), np.greater)[0]
 	else: peaks = argrelextrema(ht[0], np.greater)[0]
-	if peaks.size==1:
+	if peaks.size==1 and ht[0].argmax()>0:
 		x1,y1 = ht[1][0], ht[0][0]
 		y0 = ht[0].max()
 		bla = ht[0].argmax()
-- 
2.43.0


From 20c96dca3dd3908e19b1b083009ba80a80b11b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 116/183] fix: superpixel signal-to-noise with pixels indexed a
 list with an array

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 2b54344..4e04505 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -177,7 +177,7 @@ def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=N
 	means  = means[sorts]
 	if pixels:
 		pxls = get_superpixel_pixels(data=data, labels=labels, slic_segments=slic_segments)
-		pxls = pxls[sorts]
+		pxls = [pxls[i] for i in sorts]
 		return means/sigmas, means, sigmas, n_pix, pxls
 	return means/sigmas, means, sigmas, n_pix
 
-- 
2.43.0


From 667a2ed71a4ad4378968cab35193cd4dd06dd1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 117/183] fix: mean estimate from superpixels ignored the data
 and labels

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 4e04505..332f592 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -194,7 +194,7 @@ def mean_estimate(data, means=None, sigmas=None, n_pix=None, labels=None, slic_s
 	#if means is None: means  = get_superpixel_means(data, labels=labels, slic_segments=slic_segments)
 	#if sigmas is None: sigmas = get_superpixel_sigmas(data, labels=labels, slic_segments=slic_segments)
 	#if n_pix is None: n_pix = get_superpixel_n_pixels(data, labels=labels, slic_segments=slic_segments)
-	SNRs, means, sigmas, n_pix = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix)
+	SNRs, means, sigmas, n_pix = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix, data=data, labels=labels, slic_segments=slic_segments)
 	if SNR_thres<=0: locs = SNRs<SNR_thres
 	else: locs = SNRs<-SNR_thres
 	global_means  = np.abs(means[locs])
-- 
2.43.0


From defb3e173f3d883bfcdf30d597a58a9b36e974b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 118/183] fix: two-class clustering put the threshold inside
 the upper class

---
 src/tools21cm/identify_regions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/identify_regions.py b/src/tools21cm/identify_regions.py
index 37f9feb..3480e4d 100755
--- a/src/tools21cm/identify_regions.py
+++ b/src/tools21cm/identify_regions.py
@@ -161,7 +161,7 @@ def threshold_kmeans(cube, upper_lim=False, mean_remove=True, n_jobs=1):
 	array = np.zeros(cube.shape)
 	X  = cube.reshape(-1,1)
 	y = KMeans(n_clusters=2, n_init='auto').fit_predict(X)
-	t_th = X[y==0].max()/2.+X[y==1].max()/2.
+	t_th = min(X[y==0].max(),X[y==1].max())/2.+max(X[y==0].min(),X[y==1].min())/2.
 	if upper_lim: array[cube<=t_th] = 1
 	else: array[cube>t_th] = 1
 	print("The output contains a tuple with binary-cube and determined-threshold.")
-- 
2.43.0


From 4462a1193dfa77c50d56f1773e7ad351526df38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 119/183] fix: statistics of superpixels assumed labels without
 gaps starting at zero

---
 src/tools21cm/superpixels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 332f592..abaf451 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -127,12 +127,12 @@ def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
 	idx_low = 0
 	if verbose:
 		time.sleep(1)
-		for i in tqdm(elems, disable=False if verbose else True):
+		for i in tqdm(range(elems.size), disable=False if verbose else True):
 			idx_high = idx_low + num[i]
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	else:
-		for i in elems:
+		for i in range(elems.size):
 			idx_high = idx_low + num[i]
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
-- 
2.43.0


From 18c69d38bcd5e29de5148be9839c0a1fed5785a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 120/183] fix: the zero spacing of odd-sized coverage maps was
 not in the corner

---
 src/tools21cm/radio_telescope_layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index ed23305..704ea07 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -229,7 +229,7 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
     -------
     uv_map : np.ndarray
         A 2D array `(ncells, ncells)` of baseline counts per pixel, shifted
-        so the zero-frequency is at the center.
+        so the zero-frequency is in the corner.
     """
     z = float(z)
     if not boxsize: 
@@ -265,7 +265,7 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
         # uv_map += np.flip(np.flip(uv_map, axis=0), axis=1)  # Flip along both axes for mirror effect
         uv_map = uv_map/2.  # Average with mirrored baselines
     
-    return np.fft.fftshift(uv_map)
+    return np.fft.ifftshift(uv_map)
 
 def geographic_to_cartesian_coordinate_system(antll):
     """
-- 
2.43.0


From 4ec0a09c8db1a242ea829a43e9b4c627a5205c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 121/183] fix: antenna positions given as a plain array were
 not accepted

---
 src/tools21cm/radio_telescope_calibration.py | 4 ++--
 src/tools21cm/radio_telescope_layout.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1bc88e5..22d0961 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -55,7 +55,7 @@ def from_antenna_config_with_gains(antxyz, z, nu=None,
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, u.m).value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
 
@@ -312,7 +312,7 @@ def from_antenna_config_with_antenna_stamp(antxyz, z, nu=None):
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, u.m).value
     if not nu: 
         nu = cm.z_to_nu(z)                                 # MHz
 
diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 704ea07..d371ffe 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -32,7 +32,7 @@ def subarray_type_to_antxyz(subarray_type, verbose=True):
     if isinstance(subarray_type, str):
         antxyz = get_SKA_Low_layout(subarray_type=subarray_type, unit='xyz', verbose=verbose)
     elif isinstance(subarray_type, np.ndarray): 
-        antxyz = subarray_type
+        antxyz = u.Quantity(subarray_type, u.m, copy=False) if isinstance(subarray_type, u.Quantity) else subarray_type*u.m
     else:
         antll  = SKA1_LowConfig_Sept2016()
         antxyz = geographic_to_cartesian_coordinate_system(antll)*u.m
@@ -68,7 +68,7 @@ def from_antenna_config(antxyz, z, nu=None):
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, u.m).value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
 
-- 
2.43.0


From 4f49c76697680b34e83a4ee2962432860aadf6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 122/183] fix: Cartesian antenna positions could not be
 converted to geographic ones

---
 src/tools21cm/radio_telescope_layout.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index d371ffe..9d91620 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -293,8 +293,7 @@ def geographic_to_cartesian_coordinate_system(antll):
     - Astropy is used to ensure unit consistency.
     """
     Re = 6371. * u.km  # Earth's radius
-    if not isinstance(antll, u.quantity.Quantity):
-        antll *= u.deg
+    antll = u.Quantity(antll, u.deg)
     lon = antll[:, 0] 
     lat = antll[:, 1] 
 
@@ -337,8 +336,7 @@ def cartesian_to_geographic_coordinate_system(antxyz):
     Re = 6371. * u.km  # Earth's radius
 
     # Extract Cartesian coordinates and attach units
-    if isinstance(antxyz, u.quantity.Quantity):
-        antxyz *= u.m
+    antxyz = u.Quantity(antxyz, u.m)
     x = antxyz[:, 0]
     y = antxyz[:, 1]
     z = antxyz[:, 2]
-- 
2.43.0


From 5db739221dc453735ee4c70b371d007087b88881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 123/183] fix: geodetic layouts failed with an undefined name

---
 src/tools21cm/radio_telescope_layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 9d91620..39267c7 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -501,7 +501,8 @@ def get_SKA_Low_layout(subarray_type="AA4", unit='ecef', verbose=True):
         ant_ecef = enu_to_ecef(ant_enu, lat, lon, origin_ecef)
         ant_xyz = ecef_to_xyz(ant_ecef, lon, origin_ecef)
         return ant_xyz * u.m
-    elif unit in ['latlon', 'geodetic']:
+    elif unit.lower() in ['latlon', 'geodetic']:
+        ant_ecef = enu_to_ecef(ant_enu, lat, lon, origin_ecef)
         locations = EarthLocation.from_geocentric(ant_ecef[:, 0], ant_ecef[:, 1], ant_ecef[:, 2], unit=u.m)
         return locations.lat.deg, locations.lon.deg, locations.height.to(u.m).value
     else:
-- 
2.43.0


From 4d932ea13a7337610ba5a49f9900017a4e80b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 124/183] fix: the maximum baseline cut was not centred on the
 zero spacing

---
 src/tools21cm/radio_telescope_noise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 7f20458..2d18868 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -614,12 +614,10 @@ def get_uv_map(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10.,
 	uv_map, N_ant  = get_uv_daily_observation(ncells, z, antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, include_mirror_baselines=include_mirror_baselines, verbose=verbose)
 	if max_baseline is not None:
 		kcut = max_baseline_to_max_k(z, max_baseline)
-		kk = np.linspace(-ncells/2, ncells/2, ncells) * np.pi / boxsize
+		kk = np.fft.fftfreq(ncells, 1./ncells) * np.pi / boxsize
 		kx, ky = np.meshgrid(kk, kk)
 		ksq = kx**2 + ky**2
-		uv_map_shift = np.fft.fftshift(uv_map)
-		uv_map_shift[ksq>kcut**2] = 0.0
-		uv_map = np.fft.fftshift(uv_map_shift)
+		uv_map[ksq>kcut**2] = 0.0
 	return uv_map, N_ant
 
 def make_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., verbose=True):
-- 
2.43.0


From 5e0b04688f78a1e24d0029549039c98c180b1bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 125/183] fix: layouts given as an array are returned in metres

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 39267c7..8a30712 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -32,7 +32,7 @@ def subarray_type_to_antxyz(subarray_type, verbose=True):
     if isinstance(subarray_type, str):
         antxyz = get_SKA_Low_layout(subarray_type=subarray_type, unit='xyz', verbose=verbose)
     elif isinstance(subarray_type, np.ndarray): 
-        antxyz = u.Quantity(subarray_type, u.m, copy=False) if isinstance(subarray_type, u.Quantity) else subarray_type*u.m
+        antxyz = u.Quantity(subarray_type, u.m)
     else:
         antll  = SKA1_LowConfig_Sept2016()
         antxyz = geographic_to_cartesian_coordinate_system(antll)*u.m
-- 
2.43.0


From d498ea2a66fdcd9a51a7c6941198804ac34a8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 126/183] fix: gain and antenna-stamp coverage rotated by the
 declination taken as the observing time

---
 src/tools21cm/radio_telescope_calibration.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 22d0961..e2d034a 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -172,7 +172,7 @@ def get_uv_map_with_gains(ncells, z,
             Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)
 
         # Apply incremental rotation for the time step
-        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx+1, int_time, total_int_time, declination)
 
         # Grid the rotated baselines with gain values
         _grid_uv_tracks_with_gains(rotated_Nbase, Nbase[:,3:], gain_uv_map, z, ncells,
@@ -392,7 +392,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -404,7 +404,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
 
     return ant_tag_uv_map, N_ant
 
-def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Process a chunk of time slices.
 
@@ -422,6 +422,8 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         Array containing ux, uy, uz values of the antenna configuration.
     int_time : float
         Integration time (in seconds).
+    total_int_time : float
+        Total observation time (in hours).
     declination : float
         Declination angle in degrees.
     boxsize : float
@@ -449,7 +451,7 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx+1, int_time, total_int_time, declination)
         _grid_uv_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
@@ -591,7 +593,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -604,7 +606,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     ant_pairs = Nbase[:,-2:]
     return ant_tag_uv_lagr, ant_pairs
 
-def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Processes a chunk of observation time slices for parallel computation.
 
@@ -626,6 +628,8 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         Array containing initial baseline vectors (ux, uy, uz) and antenna tags.
     int_time : float, optional
         Integration time for each snapshot, in seconds.
+    total_int_time : float
+        Total observation time, in hours.
     declination : float, optional
         Declination of the pointing center, in degrees.
     boxsize : float, optional
@@ -650,7 +654,7 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx+1, int_time, total_int_time, declination)
         _grid_uv_lagrangian_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
-- 
2.43.0


From ff84f0a284eee67d0c800a3a305030ea4b18c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 127/183] fix: antenna-stamp coverage of fewer snapshots than
 jobs failed

---
 src/tools21cm/radio_telescope_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index e2d034a..51a3b6a 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -386,7 +386,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
@@ -587,7 +587,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
-- 
2.43.0


From 499035d4fcfbac57aaa46b0fa360d4e5d3806cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 128/183] fix: gridded coordinates of baselines were not kept
 with their antenna pair

---
 src/tools21cm/radio_telescope_calibration.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 51a3b6a..3e38950 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -712,13 +712,10 @@ def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map
         (Nb[:, 0] < ncells / 2) & (Nb[:, 1] < ncells / 2) &
         (Nb[:, 0] >= -ncells / 2) & (Nb[:, 1] >= -ncells / 2)
     )
-    ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
-    Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
+    Nb = Nb[in_bounds]
     
-    count = 0
-    for (x, y), ant1, ant2 in zip(Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
-        ant_tag_uv_map[time_idx, count, 0] = x
-        ant_tag_uv_map[time_idx, count, 1] = y
-        count += 1
+    for i, (x, y) in zip(np.flatnonzero(in_bounds), Nb[:, :2].astype(int)):
+        ant_tag_uv_map[time_idx, i, 0] = x
+        ant_tag_uv_map[time_idx, i, 1] = y
         if include_mirror_baselines:
             print('include_mirror_baselines is not implemented yet.')
\ No newline at end of file
-- 
2.43.0


From 2d6a409fcf2d9f276d3f08abc828d4ce9be99978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 129/183] fix: coverage lightcones and their file did not
 accept antenna positions

---
 src/tools21cm/radio_telescope_noise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 2d18868..ef5974d 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -217,7 +217,10 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 	if boxsize is None: boxsize = conv.LB
 	if isinstance(zs, list): zs = np.array(zs)
-	if subarray_type.upper()=='AA*': subarray_type = 'AAstar'
+	if isinstance(subarray_type, str):
+		if subarray_type.upper()=='AA*': subarray_type = 'AAstar'
+	else:
+		subarray_type = antxyz.value
 
 	# Define a dictionary of simulation parameters 
 	params = {
@@ -240,7 +243,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		for key, current_val in params.items():
 			cached_val = uvs.get(key)
 			# Check for a mismatch
-			if cached_val is not None and cached_val != current_val:
+			if cached_val is not None and not np.array_equal(cached_val, current_val):
 				# Add the error message to a list instead of raising immediately
 				mismatch_msg = f"  - '{key}': Cached value is '{cached_val}', but current call requested '{current_val}'."
 				mismatches.append(mismatch_msg)
-- 
2.43.0


From 46ba17d1ced9c2b3cd761be1d3993bf8fb506fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 130/183] fix: a single baseline lost its axis when rotated

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 8a30712..cc9cef4 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -143,7 +143,7 @@ def earth_rotation_effect(Nbase, slice_nums, int_time, total_int_time, declinati
     new_Nbase[:, :, 2] = (cos_delta * cos_HA[:, None] * Nbase[:, 0] -
                           cos_delta * sin_HA[:, None] * Nbase[:, 1] + sin_delta * Nbase[:, 2])
     
-    return new_Nbase.squeeze() if len(slice_nums) == 1 else new_Nbase
+    return new_Nbase[0] if len(slice_nums) == 1 else new_Nbase
 
 def get_uv_daily_observation(ncells, z, antxyz=None, total_int_time=4., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True):
     """
-- 
2.43.0


From e2241ebf0b04b7e47d222c297c8c64a5526be38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 131/183] fix: an interruption while saving the coverage lost
 what had been saved before

---
 src/tools21cm/radio_telescope_noise.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index ef5974d..167f2e0 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -179,6 +179,16 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 		return pn, kn, n_modes
 	return pn, kn
 
+def _save_uvmaps(uvs, save_uvmap):
+	"""
+	(Internal) Writes the UV coverage maps to a new file, then moves it in place
+	of the old one, so that an interruption cannot damage the saved maps.
+	"""
+	root, ext = os.path.splitext(save_uvmap)
+	filename = root+'.part'+ext
+	write_dictionary_data(uvs, filename)
+	os.replace(filename, save_uvmap)
+
 def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., 
     save_uvmap=None, n_jobs=4, verbose=True, checkpoint=16):
 	"""
@@ -289,7 +299,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 				# Save after processing the chunk
 				if save_uvmap:
 					if verbose: print(f"\nCheckpoint: Saving results to {save_uvmap}")
-					write_dictionary_data(uvs, save_uvmap)
+					_save_uvmaps(uvs, save_uvmap)
 
 		else: # Original behavior: either sequential or parallel without checkpoints
 			if n_jobs > 1:
@@ -308,12 +318,12 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 					is_not_last_step = (i + 1) < len(z_to_run)
 					if save_uvmap and is_checkpoint_step and is_not_last_step:
 						if verbose: print(f"\nCheckpoint: Saving results to {save_uvmap}")
-						write_dictionary_data(uvs, save_uvmap)
+						_save_uvmaps(uvs, save_uvmap)
 		
 		# Final save to ensure the last chunk or the full result is written
 		if save_uvmap:
 			if verbose: print(f"Saving final updated UV maps to {save_uvmap}")
-			write_dictionary_data(uvs, save_uvmap)
+			_save_uvmaps(uvs, save_uvmap)
 			
 	elif verbose:
 		print("All requested redshift UV maps are already present.")
-- 
2.43.0


From eb197c23d257c0ccd411da2434f1a4b314dbd50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 132/183] fix: noise lightcones did not use the number of
 antennas of the coverage, and noise maps not the given one

---
 src/tools21cm/radio_telescope_noise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 167f2e0..9b846b8 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -149,7 +149,7 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 	if boxsize is None:
 		boxsize = conv.LB
 
-	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
+	antxyz, _ = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 
 	if uv_map is None: 
 		uv_map, N_ant = get_uv_map(ncells, z, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
@@ -389,7 +389,7 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	np.ndarray
 		A 2D array representing the noise map in the image domain (in muJy).
 	"""	
-	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
+	antxyz, _ = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 
 	if uv_map is None: 
 		uv_map, N_ant = get_uv_map(ncells, z, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
@@ -712,7 +712,7 @@ def noise_cube_coeval(ncells, z, depth_mhz=None, obs_time=1000, subarray_type="A
 	np.ndarray
 		A 3D cube `(ncells, ncells, ncells)` of instrumental noise in mK.
 	"""
-	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
+	antxyz, _ = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 
 	if boxsize is None: 
 		boxsize = conv.LB
@@ -850,7 +850,7 @@ def noise_lightcone(ncells, zs, obs_time=1000, subarray_type="AA4", boxsize=None
         int_time=int_time, boxsize=boxsize, declination=declination, 
         save_uvmap=save_uvmap, n_jobs=n_jobs, verbose=verbose, checkpoint=checkpoint,
     )
-    N_ant = uvs.get('Nant')
+    N_ant = uvs.get('N_ant')
 
     # Step 2: Create the noise cube using the pre-computed UV maps.
     if verbose:
-- 
2.43.0


From f9acc830a5937500ee3ae825ef235ae6c26649cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 133/183] fix: noise_cube_lightcone passed its arguments in the
 wrong places

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 9b846b8..91fd796 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -772,7 +772,7 @@ def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=
 
 	# This function body is very similar to `noise_lightcone`. Consider refactoring.
 	return noise_lightcone(ncells, zs, obs_time, subarray_type, boxsize, save_uvmap, 
-						total_int_time, int_time, declination, N_ant, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
+						total_int_time, int_time, declination, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
 						T_sys, sefd_data, nu_data, D_station, ep_aperture,
 						suppress_sharp_features_uv_map)
 
-- 
2.43.0


From 903c5e9dc35c8b80249fe870591e8b84a58bdd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 134/183] fix: SEFD with both system temperature and aperture
 efficiency given as numbers failed

---
 src/tools21cm/radio_telescope_sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_sensitivity.py b/src/tools21cm/radio_telescope_sensitivity.py
index ab00297..4228e02 100755
--- a/src/tools21cm/radio_telescope_sensitivity.py
+++ b/src/tools21cm/radio_telescope_sensitivity.py
@@ -87,7 +87,7 @@ def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep
 		ep_aperture_val = ep_aperture(nu_obs)
 	else:
 		ep_aperture_val = ep_aperture
-	A_eff = ep_aperture_val * np.pi * ant_radius_ska ** 2  # m^2
+	A_eff = ep_aperture_val * np.pi * ant_radius_ska ** 2 * np.ones(nu_obs.shape)  # m^2
 
 	# SEFD in Jy
 	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt  # Jy
-- 
2.43.0


From af5aca9736b2250c61d258c7a32752c9acc3dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 135/183] fix: the noise window of odd-sized maps was not
 centred on the zero spacing

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 91fd796..0ca48aa 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -404,7 +404,7 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	noise_four = apply_uv_response_noise(noise_arr, uv_map, boxsize=boxsize, uv_weighting=uv_weighting, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
 	# noise_four = apply_uv_response_noise_briggs(noise_arr, uv_map, robust=2.0, epsilon=1e-6)
 	win_2d = signal_window(ncells, 'blackmanharris', ndim=2)
-	noise_four = noise_four*np.fft.fftshift(win_2d)
+	noise_four = noise_four*np.fft.ifftshift(win_2d)
 	if fft_wrap: noise_map  = ifft2_wrap(noise_four)*np.sqrt(int_time/3600./obs_time)
 	else: noise_map  = np.fft.ifft2(noise_four)*np.sqrt(int_time/3600./obs_time)
 	return np.real(noise_map)
@@ -440,7 +440,7 @@ def _suppress_sharp_features_uv_map(uv_map, boxsize=None, method='gaussian', fil
 		uv_rad_avg, k_rad_avg, n_modes = radial_average(np.fft.fftshift(uv_map), box_dims, kbins=filter_param, binning='log')
 		k_comp, k_mag = _get_k(uv_map, [boxsize,boxsize])
 		xx, yy = np.log10(k_rad_avg[k_rad_avg<k_nq/2]), np.log10(uv_rad_avg[k_rad_avg<k_nq/2])
-		uv_map_smooth = np.fft.fftshift(10**interp1d(xx[np.isfinite(yy)], yy[np.isfinite(yy)], fill_value='extrapolate')(np.log10(k_mag)))
+		uv_map_smooth = np.fft.ifftshift(10**interp1d(xx[np.isfinite(yy)], yy[np.isfinite(yy)], fill_value='extrapolate')(np.log10(k_mag)))
 	else:
 		print(f'{method} to suppress sharp features in the uv maps is not supported. Choose from "gaussian", "binned".')
 	return uv_map_smooth
-- 
2.43.0


From e54395e08fadc9071b50fddfb8d2c6e60ab718e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 136/183] fix: the noise power spectrum did not depend on the
 observing time, was infinite at unsampled cells and failed with uniform
 weighting

---
 src/tools21cm/radio_telescope_noise.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 0ca48aa..b867fff 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -161,12 +161,8 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 	box_dims = _get_dims(boxsize, uv_map.shape)
 	k_nq = np.pi/boxsize*min(uv_map.shape)
 
-	if uv_weighting.lower() in ['nat', 'natural', 'natural_weighting']:
-		out = rms_noi/np.sqrt(uv_map)
-	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = rms_noi
-	else:
-		print(f'{uv_weighting} scheme is not known or implemented')
+	out = apply_uv_response_noise(rms_noi*np.ones(uv_map.shape), uv_map, boxsize=boxsize, uv_weighting=uv_weighting)
+	out = out*np.sqrt(int_time/3600./obs_time)
 
 	power = np.fft.fftshift(out**2)
 	# scale
-- 
2.43.0


From 5430ba0dec1b5d1ebed9442c0cf96d01f1e36cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 137/183] fix: the primary beam of a 2D slice ignored the given
 null

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 14542cf..227dd40 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -36,7 +36,7 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 		boxsize = conv.LB
 	beam = np.zeros(array.shape)
 	if array.ndim==2: 
-		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
+		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
-- 
2.43.0


From 830542c415608efe4f5dba6e705ebeae0a1fb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 138/183] fix: primary beam failed for another frequency axis
 and for a list of redshifts

---
 src/tools21cm/primary_beam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 227dd40..cb37b7a 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -34,13 +34,14 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	assert array.ndim > 1
 	if boxsize is None: 
 		boxsize = conv.LB
-	beam = np.zeros(array.shape)
 	if array.ndim==2: 
 		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
-		if np.array(z).size==1: 
+		beam = np.zeros(array.shape)
+		z = np.array(z)
+		if z.size==1: 
 			z = z*np.ones(array.shape[2])
 		for i in tqdm(range(z.size), disable=not verbose): 
 			beam[:,:,i] = circular_beam(array.shape[0], z[i], D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
-- 
2.43.0


From a2361356364670231e7e25c1705e8f8e2f79e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 139/183] fix: the primary beam of odd-sized maps was not
 centred on a cell

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index cb37b7a..ee475c9 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -72,7 +72,7 @@ def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None,
         l_null = primary_beam_null(z, D_station=D_station)
     
 	# Create a grid of distances from the center
-    xx, yy = np.mgrid[-ncells/2:ncells/2,-ncells/2:ncells/2]*boxsize/ncells
+    xx, yy = np.mgrid[-(ncells//2):ncells-ncells//2,-(ncells//2):ncells-ncells//2]*boxsize/ncells
     rr = np.sqrt(xx**2+yy**2)
     
     if beam_func.lower()=='step':
-- 
2.43.0


From 000ee6c04b378a19300b3b703671afcdf63a3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 140/183] fix: the sigmoid primary beam fell off with a power
 of the distance

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index ee475c9..b8fab42 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -98,7 +98,7 @@ def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None,
         beam[center_idx] = 1.0  # Manually set the peak to 1
     elif beam_func.lower()=='sigmoid':
         r0, b = l_null/2., 0.5
-        beam = 1.-1/(1+np.exp(b*r0-b*rr**2**0.5))
+        beam = 1.-1/(1+np.exp(b*r0-b*rr))
     else:
         raise ValueError("Please choose between 'step', 'gaussian', 'bessel', and 'sigmoid' for beam_func.")
     
-- 
2.43.0


From bba72392d38365e4f19767765065b0171566a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 141/183] fix: the response of cubes with other than ncells
 slices needed a coverage of the wrong size

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index b867fff..2e8259c 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -676,13 +676,13 @@ def apply_uv_response_on_coeval(array, z, subarray_type="AA4", boxsize=None, tot
 	np.ndarray
 		The observed 3D data cube after applying the UV mask to each slice.
 	"""
-	ncells = array.shape[-1]
+	ncells = array.shape[0]
 	if boxsize is None: boxsize = conv.LB
 	if uv_map is None: 
 		uv_map, N_ant  = get_uv_map(ncells, z, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
 	data3d = np.zeros(array.shape)
 	print("Applying the uv tracks to the the coeval signal cube...")
-	for k in tqdm(range(ncells)):
+	for k in tqdm(range(array.shape[-1])):
 		data2d = apply_uv_response_on_image(array[:,:,k], uv_map=uv_map)
 		data3d[:,:,k] = data2d
 	return data3d
-- 
2.43.0


From c17de07e21780ff804739ec7ca973a0e38d16cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 142/183] fix: observational cone: scalar redshifts of any
 type, and lists

---
 src/tools21cm/angular_coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 79a088d..c9b5322 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -64,12 +64,12 @@ def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_
     if input_box_size_mpc == None:
         input_box_size_mpc = conv.LB
 
-    if isinstance(input_z_low,(float,int)):
+    if np.ndim(input_z_low)==0:
         cell_size = input_box_size_mpc/physical_lightcone.shape[0]
         distances = cm.z_to_cdist(input_z_low) + np.arange(physical_lightcone.shape[2])*cell_size
         input_z_high = cm.cdist_to_z(distances).max()
     else:
-        input_z_low, input_z_high = input_z_low.min(), input_z_low.max()
+        input_z_low, input_z_high = np.min(input_z_low), np.max(input_z_low)
 
     #Calculate the FoV in degrees at lowest z (largest one)
     fov_deg_low  = cm.angular_size_comoving(input_box_size_mpc, input_z_low)
-- 
2.43.0


From 765f5c1dcd45a4af4930ca515195c2469a63f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 143/183] fix: line-of-sight binning is centred and keeps the
 level at the ends

---
 src/tools21cm/angular_coordinates.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index c9b5322..a2aca8f 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -288,9 +288,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
         smooth_scale = 1
 
     hf.print_msg('Smooth along LoS with scale %f' % smooth_scale)
-    tophat3d = np.ones((1,1,int(smooth_scale)))
-    tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d)
+    lightcone_smoothed = _smooth_along_los(lightcone, int(smooth_scale))
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
@@ -312,9 +310,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     #Bin in Mpc by smoothing and indexing
     smooth_scale = np.round(len(frequencies)/n_output_cells)
 
-    tophat3d = np.ones((1,1,int(smooth_scale)))
-    tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
+    lightcone_smoothed = _smooth_along_los(lightcone, int(smooth_scale))
     
     for i in range(output_lightcone.shape[2]):
         idx = int(hf.find_idx(distances, output_distances[i]))
@@ -325,6 +321,18 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     return output_lightcone, output_redshifts
 
 
+def _smooth_along_los(lightcone, width):
+    '''
+    Average each slice with the slices inside a window of the given width
+    centred on it. At the ends only the slices inside the lightcone are used.
+    '''
+    tophat3d = np.ones((1,1,width))
+    total    = fftconvolve(lightcone, tophat3d, mode='full')
+    n_slices = fftconvolve(np.ones((1,1,lightcone.shape[2])), tophat3d, mode='full')
+    start    = (width-1)//2
+    return (total/np.round(n_slices))[:,:,start:start+lightcone.shape[2]]
+
+
 def _get_padded_slice(input_slice, padded_n):
     slice_n = input_slice.shape[0]
     padded_slice = np.zeros((padded_n, padded_n))
-- 
2.43.0


From b93fe0575a6f9cdd9fb267b340ab54f03f3a1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 144/183] fix: distance binning: one redshift per slice, and
 windows of at least one channel

---
 src/tools21cm/angular_coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index a2aca8f..a13a552 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -304,11 +304,11 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     '''
     distances = cm.nu_to_cdist(frequencies)
     n_output_cells = (distances[-1]-distances[0])/cell_size_mpc
-    output_distances = np.arange(distances[0], distances[-1], cell_size_mpc)
+    output_distances = distances[0] + cell_size_mpc*np.arange(int(n_output_cells))
     output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], int(n_output_cells)))
     
     #Bin in Mpc by smoothing and indexing
-    smooth_scale = np.round(len(frequencies)/n_output_cells)
+    smooth_scale = max(np.round(len(frequencies)/n_output_cells), 1)
 
     lightcone_smoothed = _smooth_along_los(lightcone, int(smooth_scale))
     
-- 
2.43.0


From c0305aaf1fd50fdf8e32c5cec22e995aca94e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 145/183] fix: angular slices can be padded to more than twice
 their size

---
 src/tools21cm/angular_coordinates.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index a13a552..9714936 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -335,12 +335,7 @@ def _smooth_along_los(lightcone, width):
 
 def _get_padded_slice(input_slice, padded_n):
     slice_n = input_slice.shape[0]
-    padded_slice = np.zeros((padded_n, padded_n))
-    padded_slice[:slice_n, :slice_n] = input_slice
-    padded_slice[slice_n:, :slice_n] = input_slice[:(padded_n-slice_n),:slice_n]
-    padded_slice[:slice_n, slice_n:] = input_slice[:,:(padded_n-slice_n)]
-    padded_slice[slice_n:, slice_n:] = input_slice[:(padded_n-slice_n), :(padded_n-slice_n)]
-    return padded_slice
+    return np.pad(input_slice, (0, padded_n-slice_n), mode='wrap')
 
 def padding_lightcone(lc, padded_n=None, mode='wrap', verbose=True):
     '''
-- 
2.43.0


From d0189430a0911fe0cb393f34b75d63ef1c0b17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 146/183] fix: angular slice one pixel wider than the field of
 view through rounding

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 9714936..653b7cb 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -97,7 +97,7 @@ def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_
         z = cm.nu_to_z(output_freqs[i])
         output_volume[:,:,i] = physical_slice_to_angular(lightcone_freq[:,:,i], z, \
                                         slice_size_mpc=input_box_size_mpc, fov_deg=fov_deg_low,\
-                                        dtheta=output_dtheta, order=order)
+                                        dtheta=output_dtheta, order=order)[:n_cells_theta,:n_cells_theta]
         
     if mode.lower() in ['pad', 'full', 'extend']:
         pass
-- 
2.43.0


From 43c7ed15969ad9dbd60a7d10c7315b755ffd1312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 147/183] fix: frequency binning of a lightcone thinner than
 two channels

---
 src/tools21cm/angular_coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 653b7cb..cd583bc 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -282,7 +282,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
                                  len(output_frequencies)))
     
     #Bin in frequencies by smoothing and indexing
-    max_cell_size = cm.nu_to_cdist(output_frequencies[-1])-cm.nu_to_cdist(output_frequencies[-2])
+    max_cell_size = cm.nu_to_cdist(output_frequencies[-1])-cm.nu_to_cdist(output_frequencies[-1]+dnu)
     smooth_scale = np.round(max_cell_size/cell_size)
     if smooth_scale < 1:
         smooth_scale = 1
@@ -316,7 +316,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
         idx = int(hf.find_idx(distances, output_distances[i]))
         output_lightcone[:,:,i] = lightcone_smoothed[:,:,int(idx)]
     
-    output_redshifts = cm.cdist_to_z(output_distances)
+    output_redshifts = np.atleast_1d(cm.cdist_to_z(output_distances))
         
     return output_lightcone, output_redshifts
 
-- 
2.43.0


From ca3a0f9052a1b57c0e343f0071ed46c7a705c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 148/183] fix: correlation function: np.trapz is gone from
 numpy

---
 src/tools21cm/corr_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 99e59a7..421aee9 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -1,6 +1,7 @@
 import numpy as np 
 from scipy.interpolate import splrep,splev
 from scipy.spatial import cKDTree
+from scipy.integrate import trapezoid
 from tqdm import tqdm
 from .power_spectrum import power_spectrum_1d, cross_power_spectrum_1d
 from . import conv
@@ -27,7 +28,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
 	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
-	corr  = np.trapz(integ, knew, axis=1) 
+	corr  = trapezoid(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
 
-- 
2.43.0


From fa7c2164b12333e8af5aba6785c38e39e56653e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 149/183] fix: correlation function: sinc(kr) is sin(kr)/kr,
 numpy.sinc has a factor pi

---
 src/tools21cm/corr_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 421aee9..1e644fe 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -27,7 +27,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	# pnew = ps_fun(knew)
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
-	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
+	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None]/np.pi)
 	corr  = trapezoid(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
-- 
2.43.0


From 84426ad769763b804883f8533e4d864f0be0d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 150/183] fix: correlation function: box_dims None or per axis,
 separations as a list

---
 src/tools21cm/corr_function.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 1e644fe..9d2aa1d 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -12,10 +12,15 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	the correlation function using the following equation:
 	.. math:: \\xi(r) = \\int 4\\pi k^2 P(k) \\mathrm{sinc}(kr)dk
 	'''
-	if isinstance(rbins, (int)): 
+	if box_dims is None:
+		box_dims = conv.LB
+	box_dims = np.atleast_1d(box_dims)[0]
+	if isinstance(rbins, (int, np.integer)): 
 		rbins = 10**np.linspace(np.log10(2*box_dims/n_grid), np.log10(box_dims/2), rbins) if binning=='log' \
 					else np.linspace(2*box_dims/n_grid, box_dims/2, rbins)
 
+	rbins = np.asarray(rbins)
+
 	# if binning=='log':
 	# 	ps_tck = splrep(np.log10(ks[np.isfinite(ps)]), ps[np.isfinite(ps)], k=1)
 	# 	ps_fun = lambda k: splev(np.log10(k),ps_tck)
-- 
2.43.0


From f6ad4761fb6fbd922be9bdd9b6839263da67e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 151/183] fix: Landy-Szalay estimator histogrammed the indices
 of the pairs instead of their separations

---
 src/tools21cm/corr_function.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 9d2aa1d..06adac0 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -156,11 +156,16 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 	data_tree = cKDTree(data)
 	random_tree = cKDTree(randoms)
 
+	def count_pairs(tree, points):
+		pairs = tree.query_pairs(rmax, output_type='ndarray')
+		separations = np.linalg.norm(points[pairs[:,0]]-points[pairs[:,1]], axis=1)
+		return np.histogram(separations, bins=rbins)[0]
+
 	# Count DD pairs (data-data)
-	DD, _ = np.histogram(data_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	DD = count_pairs(data_tree, data)
 
 	# Count RR pairs (random-random)
-	RR, _ = np.histogram(random_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	RR = count_pairs(random_tree, randoms)
 
 	# Count DR pairs (data-random)
 	DR = np.zeros(len(rbins)-1)
-- 
2.43.0


From 665593570521fa111bae4e24d8d911da5252622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 152/183] fix: Landy-Szalay estimator: rmax was undefined when
 the bin edges are given

---
 src/tools21cm/corr_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 06adac0..a17f7ea 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -147,6 +147,8 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 			rbins = np.logspace(np.log10(rmin), np.log10(rmax), rbins)
 		else:
 			rbins = np.linspace(rmin, rmax, rbins)
+	rbins = np.asarray(rbins)
+	rmax  = rbins.max()
 
 	rbin_centers = (rbins[:-1] + rbins[1:]) / 2  # Midpoints of the bins
 
-- 
2.43.0


From cfaf18da81aa000188fa6fd1bc755382121f55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 153/183] fix: Landy-Szalay estimator: mixed pairs at the last
 bin edge are counted like the others

---
 src/tools21cm/corr_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index a17f7ea..503af12 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -172,7 +172,7 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 	# Count DR pairs (data-random)
 	DR = np.zeros(len(rbins)-1)
 	for point in tqdm(data):
-		distances, _ = random_tree.query(point, k=len(randoms), distance_upper_bound=rmax)
+		distances, _ = random_tree.query(point, k=len(randoms), distance_upper_bound=np.nextafter(rmax, np.inf))
 		distances = distances[distances <= rmax]  # Exclude infinite distances (points outside search range)
 		DR += np.histogram(distances, bins=rbins)[0]
 
-- 
2.43.0


From c2ff2d77a02494b7a96a4beab84b42c87efe9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 154/183] fix: Doppler width of the Lyman-alpha line lacked the
 factor 2 (its profile did not integrate to the line strength)

---
 src/tools21cm/lyman_alpha_transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 5b4dedd..0ee9ac2 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -128,7 +128,7 @@ def lyA_scattering_cross_section(nu, Tk):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
@@ -255,7 +255,7 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
-- 
2.43.0


From d920f43a9fc0fc6c0d1aad4501601d0cba2ec9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 155/183] fix: Lyman-alpha line of sight: the density stays
 with the neutral fraction along any axis, output in the orientation of the
 input

---
 src/tools21cm/lyman_alpha_transmission.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 0ee9ac2..c3a100c 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -306,6 +306,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
 
     if los_axis!=2:
         xHI = np.swapaxes(xHI,los_axis,2)
+        dn  = np.swapaxes(dn,los_axis,2)
     
     if not isinstance(los_len, units.quantity.Quantity):
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
@@ -334,4 +335,6 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
     exp_tauA_los = np.array([exp_tauA_padded[:,:,i:i+los_cells].sum(axis=2).T/los_cells for i in tqdm(range(tauA.shape[2]))])
     tauA_los = -np.log(exp_tauA_los)
     tauA_los = np.swapaxes(tauA_los,0,2)
+    if los_axis!=2:
+        tauA_los = np.swapaxes(tauA_los,los_axis,2)
     return tauA_los
-- 
2.43.0


From 7944b5086fdea063084dbaa41d090281b889f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 156/183] fix: Lyman-alpha line of sight: the smith2015 method
 called a function that does not exist

---
 src/tools21cm/lyman_alpha_transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index c3a100c..91bc272 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -321,9 +321,9 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         Tk = kwargs.get('Tk')
         dr = kwargs.get('dr')
         nu = kwargs.get('nu', 2.46e15*units.Hz)
-        if los_axis!=2: 
+        if los_axis!=2 and np.ndim(Tk)==3: 
             Tk = np.swapaxes(Tk,los_axis,2)
-        tauA = tau_nu_lyA_Smith2015(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
+        tauA = tau_nu_lyA(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
     elif method.lower()=='fgpa':
         f_alpha = kwargs.get('f_alpha', 0.416)
         lambda_alpha = kwargs.get('lambda_alpha', 1216.0*units.Angstrom)
-- 
2.43.0


From 6a35c1833896c06af4b7bf64d7ca31c1de75154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 157/183] fix: Lyman-alpha line of sight: windows longer than
 twice the box wrap around it

---
 src/tools21cm/lyman_alpha_transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 91bc272..93f0b77 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -330,7 +330,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         k_res = kwargs.get('k_res', 1.0)
         tauA = tau_nu_lyA_FGPA(z, xHI, dn, f_alpha=f_alpha, lambda_alpha=lambda_alpha, k_res=k_res, X_H=X_H, cosmo=cosmo)
 
-    tauA_padded = np.concatenate((tauA[:,:,-int(los_cells/2):],tauA,tauA[:,:,:int(los_cells/2) if los_cells%2==0 else int(los_cells/2)+1]),axis=2)
+    tauA_padded = np.take(tauA, np.arange(-(los_cells//2), tauA.shape[2]+los_cells-los_cells//2), axis=2, mode='wrap')
     exp_tauA_padded = np.exp(-tauA_padded)
     exp_tauA_los = np.array([exp_tauA_padded[:,:,i:i+los_cells].sum(axis=2).T/los_cells for i in tqdm(range(tauA.shape[2]))])
     tauA_los = -np.log(exp_tauA_los)
-- 
2.43.0


From c893eaebd5e6f091d7e19d768ebe6bc020a87612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 158/183] fix: Lyman-alpha line of sight: the length in cells
 is rounded whatever its unit

---
 src/tools21cm/lyman_alpha_transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 93f0b77..29f60ce 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -312,7 +312,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
         los_cells = los_len
     else:
-        los_cells = int(np.round(los_len*(xHI.shape[0]/box_len)))
+        los_cells = int(np.round((los_len*(xHI.shape[0]/box_len)).to('').value))
 
     if dn.min()>1:
         dn = dn/dn.mean()-1
-- 
2.43.0


From 3203ef77fec32cb977e9bb1cbcbcf7fdc6ab4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 159/183] fix: CII maps accept the documented dictionary of
 star formation parameters

---
 src/tools21cm/line_intensity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/line_intensity.py b/src/tools21cm/line_intensity.py
index dd3e648..f3dac19 100755
--- a/src/tools21cm/line_intensity.py
+++ b/src/tools21cm/line_intensity.py
@@ -128,6 +128,7 @@ def L_CII_on_grid(z, mass, pos_xyz, box_dim, n_grid, SFR=None, cosmo=None,
     if not isinstance(box_dim, units.quantity.Quantity):
         box_dim = box_dim*units.Mpc
 
+    if isinstance(SFR, dict): SFR, kwargs = None, {**kwargs, **SFR}
     if SFR is None: SFR = 'silva2013'
     if isinstance(SFR, str):
         if SFR.lower() in ['silva2013', 'silva2015']:
-- 
2.43.0


From 734c3ab74b5378a8879802c01c1876920bbc4f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 160/183] fix: foregrounds: redshifts as int, list or 0-d
 array, with numpy 2

---
 src/tools21cm/foreground_model.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3a8df22..5f9bf83 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -27,10 +27,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(z)
 	gf_data = np.zeros((ncells, ncells, z.size))
 
 	if(rseed): np.random.seed(rseed)
@@ -69,10 +66,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(z)
 	exgf_data = np.zeros((ncells, ncells, z.size))
 
 	dS, nu_s = 0.01, 150
-- 
2.43.0


From 071c7b5a8fa35f5ecaa37ed952e6238ccab4bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 161/183] fix: galactic foreground: maps with an odd number of
 cells were NaN

---
 src/tools21cm/foreground_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 5f9bf83..bc64e09 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -39,6 +39,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 		nu = cm.z_to_nu(z[i])
 		U_cb  = (np.mgrid[-ncells/2:ncells/2,-ncells/2:ncells/2]+0.5)*cm.z_to_cdist(z[i])/boxsize
 		l_cb  = 2*np.pi*np.sqrt(U_cb[0,:,:]**2+U_cb[1,:,:]**2)
+		l_cb[l_cb==0] = np.inf #no power in the mean
 		C_syn = A150*(1000/l_cb)**beta_*(nu/nu_s)**(-2*a_syn-2*Da_syn*np.log(nu/nu_s))
 		solid_angle = boxsize**2/cm.z_to_cdist(z[i])**2
 		AA = np.sqrt(solid_angle*C_syn/2)
-- 
2.43.0


From 9bfd0a28f5e8bcf4130e8dd87f22553ec9c3ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 162/183] fix: foregrounds: a random seed of 0 was ignored

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index bc64e09..75dd669 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -30,7 +30,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	z = np.atleast_1d(z)
 	gf_data = np.zeros((ncells, ncells, z.size))
 
-	if(rseed): np.random.seed(rseed)
+	if rseed is not False and rseed is not None: np.random.seed(rseed)
 	X  = np.random.normal(size=(ncells, ncells))
 	Y  = np.random.normal(size=(ncells, ncells))
 	nu_s,A150,beta_,a_syn,Da_syn = 150,513,2.34,2.8,0.1
@@ -75,7 +75,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	
 	Ss = np.arange(0.1, S_max, dS)
 	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
-	if(rseed): np.random.seed(rseed)
+	if rseed is not False and rseed is not None: np.random.seed(rseed)
 	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
-- 
2.43.0


From daa2f2fda2dcc806455e827a03b9d8775aaae123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 163/183] fix: extragalactic foreground: removed numpy
 functions, and sources in the same cell replaced each other

---
 src/tools21cm/foreground_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 75dd669..57a5ba8 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -74,9 +74,9 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	solid_angle = boxsize**2/cm.z_to_cdist(z.min())**2
 	
 	Ss = np.arange(0.1, S_max, dS)
-	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
+	N  = int(10**3.75*trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
 	if rseed is not False and rseed is not None: np.random.seed(rseed)
-	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
+	x, y = np.random.randint(0, high=ncells, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
 
@@ -84,7 +84,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 		nu = cm.z_to_nu(z[i])
 		S_nu = S_s*(nu/nu_s)**(-alpha_ps)
 		for p in range(S_nu.size):
-			exgf_data[x[p], y[p], i] = jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
+			exgf_data[x[p], y[p], i] += jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
 	return exgf_data.squeeze()
 
 
-- 
2.43.0


From 90c820d11705fc2176266f54a28f2a751dcc344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 164/183] fix: wedge filters: barrel filter filled itself with
 itself, both failed without an array or for thin arrays

---
 src/tools21cm/foreground_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 57a5ba8..e76c126 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -113,7 +113,9 @@ def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step
 			ss[k2<=kpr]  = 0
 		ss[k2<=kmin] = 0
 		filt[:,:,i] = ss
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	if array is not None and array.shape[2]<ncells:
+		start = ncells//2-array.shape[2]//2
+		filt  = filt[:,:,start:start+array.shape[2]]
 	print("A diabolo filter made with %s function."%funct)
 	return filt
 
@@ -131,8 +133,10 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 	ss = np.ones(k2.shape)
 	ss[k2<=k_par_min] = 0
 	filt = np.zeros((ncells,ncells,ncells))
-	for i in range(ncells): filt[:,:,i] = filt
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	for i in range(ncells): filt[:,:,i] = ss
+	if array is not None and array.shape[2]<ncells:
+		start = ncells//2-array.shape[2]//2
+		filt  = filt[:,:,start:start+array.shape[2]]
 	print("A barrel filter made with step function.")
 	return filt	
 
-- 
2.43.0


From ed75946b209a288906f2d3a1720e4603e300be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 165/183] fix: wedge removal misplaced the modes of boxes with
 an odd number of cells

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index e76c126..5eeac7d 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -143,7 +143,7 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 def remove_wedge_image(dt, z, mu=0.5, funct='step', boxsize=None, filt=None):
 	if filt is None: filt = diabolo_filter(z, array=dt, mu=mu, funct=funct, boxsize=boxsize)
 	fft_dt = np.fft.fftn(dt)
-	apply_filt = np.fft.fftshift(np.fft.fftshift(fft_dt)*filt)
+	apply_filt = np.fft.ifftshift(np.fft.fftshift(fft_dt)*filt)
 	dt_new = np.real(np.fft.ifftn(apply_filt))
 	return dt_new
 
-- 
2.43.0


From 284d401dd53bbc9456af75710dfa8fdcf8eef8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 166/183] fix: rolling wedge removal: chunks of an odd number
 of slices

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 5eeac7d..c0757fb 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -197,7 +197,7 @@ def rolling_wedge_removal_lightcone(lightcone, redshifts, cell_size=None, chunk_
 	Box_uv = np.concatenate((empty_box, Box_uv, empty_box), axis = 2)
     
 	for i in range(chunk_length, box_shape[-1] + chunk_length):
-		t_box = np.copy(Box_uv[..., i-chunk_length//2: i+chunk_length//2])
+		t_box = np.copy(Box_uv[..., i-chunk_length//2: i-chunk_length//2+chunk_length])
 		t_box *= BM
 		W = k_par / (k_perp * MF[min(i - chunk_length // 2 - 1, box_shape[-1] - 1)] + buffer)
 		w = np.logical_or(W < -1., W > 1.)
-- 
2.43.0


From 03df2a4cc8794dd9e583ead207ff251a43ef47ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 167/183] fix: UV magnitude and luminosity conversions:
 undefined name and missing units

---
 src/tools21cm/astro_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 84d8e1e..94e2440 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -88,8 +88,8 @@ def Muv_to_muv(Muv, z, cosmo=None):
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
     if isinstance(Muv, (int,float)): Muv *= units.mag
-    Kcorrection = 2.5 * np.log10(1 + z) 
-    m_uv = Muv + cosmo.distmod(z).value - Kcorrection
+    Kcorrection = 2.5 * np.log10(1 + z) * units.mag
+    m_uv = Muv + cosmo.distmod(z) - Kcorrection
     return m_uv
 
 
@@ -145,7 +145,7 @@ def Muv_to_L1500(M_AB):
     This conversion is based on the AB magnitude system, where a magnitude of M_AB = 34.1 corresponds 
     to a luminosity of 10^34.1 erg/s/Hz.
     '''
-    if isinstance(Muv, (int,float)): Muv *= units.mag
+    if isinstance(M_AB, (int,float)): M_AB *= units.mag
     SI2cgs = 1e7  # 1 W/Hz = 1e7 erg/s/Hz
     L1500 = SI2cgs * 10.**((34.1 - M_AB.to('mag').value)/2.5) * units.erg/units.s/units.Hz
     return L1500
-- 
2.43.0


From 583da2d461cee88e3f02ed80bf327b0e98a38548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 168/183] fix: field of view without unit is in square degrees
 as documented

---
 src/tools21cm/astro_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 94e2440..874a25f 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -30,7 +30,7 @@ def FoV_cMpc2(FoV, redshift, cosmo=None):
     if cosmo is None:
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
-    if isinstance(FoV,(int,float)): FoV *= units.rad**2
+    if isinstance(FoV,(int,float)): FoV *= units.deg**2
     D = cosmo.comoving_distance(redshift)
     FoV_cMpc2 = FoV.to('rad2').value * D**2
     return FoV_cMpc2
-- 
2.43.0


From eefeaf725c4624d507e4f9e3be1fbff250c609c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 169/183] fix: percolation: any cluster of two cells counted as
 percolating, and only the first cluster was looked at

---
 src/tools21cm/percolation.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/percolation.py b/src/tools21cm/percolation.py
index b994741..4b5be23 100755
--- a/src/tools21cm/percolation.py
+++ b/src/tools21cm/percolation.py
@@ -31,14 +31,13 @@ def find_percolation_cluster(data, xth=0.5, connectivity=1):
 		if out_uniq[0][0]==1: return out_map.size
 		print('There is no percolation cluster in the data.') 
 		return 0
-	out_label = np.zeros_like(out_map)
-	out_label[out_map==out_uniq[0][1]] = 1
-	isPerc = False
-	if np.any(out_label+np.roll(out_label, 1, axis=0)>1): isPerc = True
-	if np.any(out_label+np.roll(out_label, 1, axis=1)>1): isPerc = True
-	if np.any(out_label+np.roll(out_label, 1, axis=2)>1): isPerc = True
-	if isPerc:
-		return out_label.sum()
+	# Labels of the clusters that reach both ends of the box along any axis
+	isPerc = set()
+	for axis in range(out_map.ndim):
+		isPerc |= set(np.intersect1d(out_map.take(0, axis=axis), out_map.take(-1, axis=axis)))
+	sizes = [n for label, n in zip(*out_uniq) if label>0 and label in isPerc]
+	if sizes:
+		return max(sizes)
 	print('There is no percolation cluster in the data.')
 	return 0
 
-- 
2.43.0


From dfc49b7aada303452d12499cb9c116b2af07e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 170/183] fix: box counting: the ball window was a cylinder

---
 src/tools21cm/box_counting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/box_counting.py b/src/tools21cm/box_counting.py
index 8ecb740..7686123 100755
--- a/src/tools21cm/box_counting.py
+++ b/src/tools21cm/box_counting.py
@@ -15,11 +15,11 @@ def get_kernel(size, window):
 		kern = np.zeros((size, size, size))
 		if size % 2 == 0:
 			size = int(size/2)
-			x,y = np.mgrid[-size:size, -size:size]
+			x,y,z = np.mgrid[-size:size, -size:size, -size:size]
 		else:
 			size = int(size/2)
-			x,y = np.mgrid[-size:size+1, -size:size+1]
-		kern[x**2+y**2<=size**2] = 1
+			x,y,z = np.mgrid[-size:size+1, -size:size+1, -size:size+1]
+		kern[x**2+y**2+z**2<=size**2] = 1
 	return kern/kern.sum()
 
 def Renyi_diemsnions(data, q):
-- 
2.43.0


From 352c689ff83f4bb7bab413335fcdd06a4a1cb2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 171/183] fix: box counting: Renyi dimensions with integer
 window sizes, each once

---
 src/tools21cm/box_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/box_counting.py b/src/tools21cm/box_counting.py
index 7686123..83f8647 100755
--- a/src/tools21cm/box_counting.py
+++ b/src/tools21cm/box_counting.py
@@ -24,7 +24,7 @@ def get_kernel(size, window):
 
 def Renyi_diemsnions(data, q):
 	rmin, rmax = 2, min(data.shape)/4
-	rr  = np.round(np.exp(np.linspace(np.log(rmin), np.log(rmax), 10)))
+	rr  = np.unique(np.round(np.exp(np.linspace(np.log(rmin), np.log(rmax), 10))).astype(int))
 	Z_r = np.array([box_count_sliding(data, size, q) for size in rr])
 	dd  = np.log(Z_r)/np.log(rr)
 	fdd = interpolate.interp1d(rr, dd, fill_value='extrapolate', kind='cubic')
-- 
2.43.0


From 6449be271bafccfcdc06b0d5a79e9a0fc6dca8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 172/183] fix: box counting: rounding below zero gave NaN for
 fractional orders

---
 src/tools21cm/box_counting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/box_counting.py b/src/tools21cm/box_counting.py
index 83f8647..41cffbe 100755
--- a/src/tools21cm/box_counting.py
+++ b/src/tools21cm/box_counting.py
@@ -6,6 +6,7 @@ def box_count_sliding(data, size, q, window='ball'):
 	assert window in ['ball', 'cube']
 	kernel = get_kernel(size, window)
 	smooth = fftconvolve(data, kernel, mode='same')
+	if np.min(data) >= 0: smooth = np.clip(smooth, 0, None)
 	return np.sum(smooth**q)
 
 
-- 
2.43.0


From ca5599d7ad45cf7bbe8c52cdd8c4cad55e77bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 173/183] fix: convolve_uvmap: layout handed to get_uv_map
 under its present name (no uv map given)

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 502c18b..e5571d5 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -519,7 +519,7 @@ def convolve_uvmap(array, z=None, uv_map=None, max_baseline=None, box_size_mpc=F
         if uv_map is None: 
                 uv_map, N_ant  = get_uv_map(array.shape[0],
                                                 z,
-                                                filename=filename,
+                                                subarray_type=filename,
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
@@ -561,7 +561,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if uv_map is None: 
                 uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
-                                                filename=filename,
+                                                subarray_type=filename,
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
-- 
2.43.0


From 682d79966da484c72433353d0a22bec17ec91b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 174/183] fix: radial_average of integer arrays

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 26e60ee..a7f8519 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -131,7 +131,7 @@ def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.
                                                 weights = input_array.flatten())[0]
         #Number of modes in each bin
         n_modes = np.histogram(k.flatten(), bins=kbins)[0].astype('float')
-        outdata /= n_modes
+        outdata = outdata/n_modes
         
         return outdata, kbins[:-1]+dk, n_modes
         
-- 
2.43.0


From 2c75b8ea0fbb20b14da8d2a9c02de6ae81a1d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 175/183] fix: boundaries: marks above the maximum of integer
 maps were truncated

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index abaf451..77b7afb 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -50,7 +50,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 def boundaries(sl, lab, mark=True, factor=1.01):
 	assert sl.ndim == 2 and lab.ndim == 2
 	bd  = mark_boundaries(np.zeros(sl.shape), lab)
-	out = sl.copy()
+	out = np.array(sl, dtype=np.result_type(sl, np.float32))
 	if mark: out[bd[:,:,0]==1] = sl.max()*factor
 	else: out[0,0] = sl.max()*factor
 	return out
-- 
2.43.0


From 6268e05033996c66a8d3bf5018e5bda4e4ce956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 176/183] fix: uniform weighting changed the noise array it was
 given

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 2e8259c..59b206a 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -475,7 +475,7 @@ def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural',
 			uv_map_smooth = uv_map
 		out = noise/np.sqrt(uv_map_smooth)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = noise
+		out = noise.copy()
 	else:
 		print(f'{uv_weighting} scheme is not known or implemented')
 	out[uv_map<uv_map_min] = 0.
-- 
2.43.0


From d4b6df23c25b53a6a588272a607debb61c7192d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 177/183] fix: mu_binning changed the power spectrum it was
 given

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index a7f8519..22c9d50 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -387,6 +387,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
+        powerspectrum = np.array(powerspectrum, dtype=float)
         if weights is not None:
                 powerspectrum *= weights
 
-- 
2.43.0


From bee21c6738310fcd8d8dd5a08e3d13f751bb7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 178/183] fix: power_spect_2d: tapering changed the array it
 was given

---
 src/tools21cm/power_spect_fast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spect_fast.py b/src/tools21cm/power_spect_fast.py
index 88acb6c..a88a9ec 100755
--- a/src/tools21cm/power_spect_fast.py
+++ b/src/tools21cm/power_spect_fast.py
@@ -174,11 +174,11 @@ def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 	if window is not None:
 		from scipy.signal import windows
 		if window.lower()=='blackmanharris':
-				input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
+				input_array = input_array*windows.blackmanharris(input_array.shape[-1])[None,None,:]
 		elif window.lower()=='tukey':
-				input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
+				input_array = input_array*windows.tukey(input_array.shape[-1])[None,None,:]
 		else:
-				input_array *= window
+				input_array = input_array*window
 
 	if np.array(kbins).size==1: 
 		kbins = [kbins, kbins]
-- 
2.43.0


From c73b9654effa78a9bd60a5391b47d04c004c51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 179/183] fix: horizon wedge line used a function of another
 module that does not exist

---
 src/tools21cm/power_spect_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spect_fast.py b/src/tools21cm/power_spect_fast.py
index a88a9ec..74d3765 100755
--- a/src/tools21cm/power_spect_fast.py
+++ b/src/tools21cm/power_spect_fast.py
@@ -343,7 +343,7 @@ def horizon_wedge_equation(z, fov_deg=90.0):
 		A lambda function k_parallel(k_perpendicular).
 	'''
 	f_kpar = lambda kper: kper*np.sin(fov_deg*np.pi/180)/(1+z)*\
-							smoothing.hubble_parameter(z)/const.c*cosmo.z_to_cdist(z)
+							cosmo.hubble_parameter(z)/const.c*cosmo.z_to_cdist(z)
 	return f_kpar
 
 # def plot_2d_power(ps, xticks, yticks, xlabel, ylabel):
-- 
2.43.0


From a6d9d9c614e486b3afca8494199c0099c18bbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 180/183] fix: step_cell interpolation: transition redshifts
 were not spread between the two boxes

The smoothed value of a cell moved by the random tie breaker can lie outside the table; cells above its end got the transition of the lowest.
---
 src/tools21cm/lightcone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 2239a5f..e3a5832 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -503,7 +503,8 @@ def _get_step_transitions(cell_dist, diff_idx):
     values_flat = cell_dist[diff_idx].flatten()
     values_sorted = sorted(values_flat+np.random.random(len(values_flat))*1.e-9)
     values_uniform = np.linspace(values_sorted[0], values_sorted[-1], len(values_sorted))
-    f = scipy.interpolate.interp1d(values_sorted, values_uniform, bounds_error=False, fill_value=0.)
+    f = scipy.interpolate.interp1d(values_sorted, values_uniform, bounds_error=False, \
+                                   fill_value=(values_uniform[0], values_uniform[-1]))
     output_values = f(cell_dist)
     output_values -= output_values.min()
     output_values /= output_values.max()
-- 
2.43.0


From 989412b22af15ccae1069cea51b942bfaf602661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 181/183] fix: step_cell interpolation failed for slices in
 which no cell changes

---
 src/tools21cm/lightcone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index e3a5832..b6ba3c9 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -501,6 +501,8 @@ def _get_step_transitions(cell_dist, diff_idx):
     #Replace each value in cell_dist with the number of cells 
     #with a lower value. Then normalize to be between 0 and 1
     values_flat = cell_dist[diff_idx].flatten()
+    if len(values_flat) < 2: #There is no order of transitions
+        return np.full(cell_dist.shape, 0.5)
     values_sorted = sorted(values_flat+np.random.random(len(values_flat))*1.e-9)
     values_uniform = np.linspace(values_sorted[0], values_sorted[-1], len(values_sorted))
     f = scipy.interpolate.interp1d(values_sorted, values_uniform, bounds_error=False, \
-- 
2.43.0


From 64edf1f94a2900fca6147ec7da91692d8f219f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:38 +0000
Subject: [PATCH 182/183] fix: per-slice redshifts of a volume run along its
 line of sight in get_distorted_dt

---
 src/tools21cm/pv_mpm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index b81fdde..0572605 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -72,9 +72,11 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
 
     #Input redshift can be a float or an array, but we need an array
     redsh = np.atleast_1d(redsh)
+    if redsh.ndim == 1 and len(redsh) > 1: #One redshift per slice along the line of sight
+        redsh = np.moveaxis(redsh.reshape(1, 1, -1), 2, los_axis)
 
     print_msg('Making velocity-distorted box...')
-    print_msg('The (min) redshift is %.3f' % redsh[0])
+    print_msg('The (min) redshift is %.3f' % redsh.flat[0])
     print_msg('The box size is %.3f cMpc' % conv.LB)
     
     #Figure out the apparent position shift 
-- 
2.43.0


From 8957ad7e5570e7e061adca4cf486a98b3af9276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:04 +0000
Subject: [PATCH 183/183] fix: periodic spheres of put_sphere wrapped along the
 diagonal only

---
 src/tools21cm/spa_np.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/spa_np.py b/src/tools21cm/spa_np.py
index 1519bc8..2b39382 100755
--- a/src/tools21cm/spa_np.py
+++ b/src/tools21cm/spa_np.py
@@ -30,12 +30,13 @@ def spa_np(data, xth=0.95, nscales=30, binning='log', verbose=True, use_fftconvo
 def put_sphere(array, centre, radius, label=1, periodic=True, verbose=False):
 	assert array.ndim == 3
 	nx, ny, nz = array.shape
-	aw  = np.argwhere(np.isfinite(array))
-	RR  = ((aw[:,0]-centre[0])**2 + (aw[:,1]-centre[1])**2 + (aw[:,2]-centre[2])**2).reshape(array.shape)
+	RR  = np.zeros(array.shape)
+	for x, n, c in zip(np.indices(array.shape), (nx, ny, nz), centre):
+		dist = x-c
+		if periodic: dist = np.minimum(dist%n, -dist%n) #distance to the closest image
+		RR  += dist**2
 	array[RR<=radius**2] = label
 	if periodic: 
-		RR2 = ((aw[:,0]+nx-centre[0])**2 + (aw[:,1]+ny-centre[1])**2 + (aw[:,2]+nz-centre[2])**2).reshape(array.shape)
-		array[RR2<=radius**2] = label
 		if verbose: print("Periodic circle of radius %d made at (%d,%d,%d)"%(radius, centre[0], centre[1], centre[2]))
 	else: 
 		if verbose: print("Non-periodic circle of radius %d made at (%d,%d,%d)"%(radius, centre[0], centre[1], centre[2]))
-- 
2.43.0

