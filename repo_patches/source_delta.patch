From 2fe6938d3365502bef8c141138ab9093f11e63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 01/31] fix: band parameters equal to zero can be read

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5e63a84..754930b 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -106,7 +106,7 @@ class BandStructure:
 
     def __getitem__(self, key):
         try:
-            assert self._band_params[key]
+            self._band_params[key]
         except KeyError:
             print(key + " is not a defined band parameter")
         else:
-- 
2.43.0


From ed522f1331ce0a8c275b6109537e7b0ab83e00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 02/31] fix: erase the cyclotron mass together with the Fermi
 surface

---
 cuprates_transport/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 754930b..b6bac3e 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -145,6 +145,7 @@ class BandStructure:
     def erase_Fermi_surface(self):
         self.kf  = None
         self.vf  = None
+        self.mass = None
         self.dkf = None
         self.dks = None
         self.dkz = None
-- 
2.43.0


From c2bc031a339911ac12ce6f533e8bd0264aca70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 03/31] fix: set_mu_to_doping erases the Fermi surface of the
 previous mu

---
 cuprates_transport/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index b6bac3e..0a91c65 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -262,12 +262,12 @@ class BandStructure:
         return n_per_kz, p_per_kz
 
     def diff_doping(self, mu, p_target):
-        self._band_params["mu"] = mu
+        self["mu"] = mu
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self._band_params["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                                  args=(p_target,), xtol=ptol)
+        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
+                                     args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
         if self.march_square is True:
-- 
2.43.0


From 277d7b9a86af81de1259a53fd7618691130f9fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 04/31] fix: assigning band_params copies the given dictionary

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 0a91c65..d707bee 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -123,7 +123,7 @@ class BandStructure:
         return self._band_params
 
     def _set_band_params(self, band_params):
-        self._band_params = band_params
+        self._band_params = deepcopy(band_params)
         self.erase_Fermi_surface()
     band_params = property(_get_band_params, _set_band_params)
 
-- 
2.43.0


From 9aefe211ee236d054df614db1082860f753c3dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 05/31] fix: each BandStructure owns its k_max list

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index d707bee..5327991 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -76,7 +76,7 @@ class BandStructure:
         # Number of subdivisions of the FBZ in units of Pi
         self.resolution = [res if res % 2 != 0 else res + 1 for res in resolution]
         # Unitless bounds of the Brillouin zone : k_x = [- k_max / a ... + k_max / a]
-        self.k_max = k_max # list
+        self.k_max = list(k_max) # list, own copy
 
         # Whether to use or not the marching square for higher symmetries
         self.march_square = march_square
-- 
2.43.0


From ffb7fdf2e6ef0be43c7ad09c2bfeca75e1625721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 06/31] fix: path along the contours of an orthorhombic band in
 units of 1/a

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5327991..97b9c3f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -379,7 +379,7 @@ class BandStructure:
                     x = (contour[:, 0] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[0]
                     y = (contour[:, 1] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[1]
                 # path
-                ds = sqrt(np.diff(x)**2 + np.diff(y)**2)  # segment lengths
+                ds = sqrt(np.diff(x)**2 + (np.diff(y) * self.a / self.b)**2)  # segment lengths, in units of 1 / a
                 s = np.zeros_like(x)  # arrays of zeros
                 s[1:] = np.cumsum(ds)  # integrate path, s[0] = 0
                 # Store the number of k points per kz
-- 
2.43.0


From 27dd95e55c116ae48833aec29496bc8ce163d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 07/31] fix: marching square with no contour on the first kz
 slices

---
 cuprates_transport/bandstructure.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 97b9c3f..b0888fb 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -364,6 +364,10 @@ class BandStructure:
         # Meshgrid for kx and ky
         kxx, kyy = np.meshgrid(kx_a, ky_a, indexing='ij')
         self.number_of_points_per_kz_list = []
+        # Arrays of the points on the Fermi surface
+        kxf, kyf, kzf, dkf = (np.empty(0) for _ in range(4))
+        self.dks = np.empty(0)
+        self.dkz = np.empty(0)
         # Loop over the kz array
         for j, kz in enumerate(kz_a):
             contours = measure.find_contours(self.energy_func(kxx, kyy, kz), epsilon)
@@ -401,21 +405,12 @@ class BandStructure:
                     x_int = x_dump
                     y_int = y_dump
                 # Put in an array /////////////////////////////////////////////////////#
-                if i == 0 and j == 0:  # for first contour and first kz
-                    kxf = x_int / self.a
-                    kyf = y_int / self.b
-                    # self.a (and not b) because anisotropy is taken into account earlier
-                    kzf = kz * np.ones_like(x_int)
-                    dkf = dks * dkz * np.ones_like(x_int)
-                    self.dks = dks * np.ones_like(x_int)
-                    self.dkz = dkz * np.ones_like(x_int)
-                else:
-                    kxf = np.append(kxf, x_int / self.a)
-                    kyf = np.append(kyf, y_int / self.b)
-                    kzf = np.append(kzf, kz * np.ones_like(x_int))
-                    dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
-                    self.dks = np.append(self.dks, dks * np.ones_like(x_int))
-                    self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
+                kxf = np.append(kxf, x_int / self.a)
+                kyf = np.append(kyf, y_int / self.b)
+                kzf = np.append(kzf, kz * np.ones_like(x_int))
+                dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
+                self.dks = np.append(self.dks, dks * np.ones_like(x_int))
+                self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
             if self.a == self.b:
                 # discretize one fourth of FS, therefore need * 4
                 self.number_of_points_per_kz_list.append(4 * number_of_points_per_kz)
-- 
2.43.0


From 5834c893ce88d544ad319af2b9bc28ed65dbded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 08/31] fix: marching cube discards the slices of an earlier
 marching square

---
 cuprates_transport/bandstructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index b0888fb..55fc037 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -308,6 +308,10 @@ class BandStructure:
         It returns: - kf with dimensions (xyz, position on FS)
                     - dkf with dimensions (position on FS)
         """
+        # Quantities that only exist with the marching square algorithm
+        self.dks = None
+        self.dkz = None
+        self.number_of_points_per_kz_list = []
         # Generate a uniform meshgrid
         energy, _, _, _, kx_a, ky_a, kz_a = self.dispersion_grid(self.resolution)
         # Use marching cubes to discritize the Fermi surface
-- 
2.43.0


From f8df100bee4b711a5aadfcd62e94b83a94634d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 09/31] fix: plotting the Fermi surface does not replace the
 doping of the object

---
 cuprates_transport/bandstructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 55fc037..747eff3 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -552,6 +552,8 @@ class BandStructure:
         fig.subplots_adjust(left=0.14, right=0.75, bottom=0.20, top=0.9)
         # doping_per_kz returns (n, p), so we look at p here.
         doping_per_kz = self.doping_per_kz(res_z=5)[1][2:]
+        # total doping, without replacing the p and n of the object
+        doping_total = np.mean(self.doping_per_kz(res_z=500)[1])
         a_z = np.round(self.k_max[2] / pi, 1)
         # Adding the title line "kz, p_z" with alignment
         fig.text(0.76, 0.86, r"$k_{\rm z}$", color="k", fontsize=18)  # k_z
@@ -565,7 +567,7 @@ class BandStructure:
         # Adding the third value line
         fig.text(0.76, 0.68, r"$" + f"{a_z:g}" + r"\pi/c$", color="#f3d36b", fontsize=18)  # k_z
         fig.text(0.88, 0.68, (np.round(doping_per_kz[2], 3)), color="#f3d36b", fontsize=18)  # p_z
-        fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(self.doping(), 3)), fontsize = 18)
+        fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(doping_total, 3)), fontsize = 18)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, pi/self.c), 0, colors = '#ee9c54', linewidths = 3)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 2*pi/self.c), 0, colors = '#f3d36b', linewidths = 3)
-- 
2.43.0


From 5cc9926e1f87ca72cee86cbbd32a646e8c24bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 10/31] fix: N_time can be set before the first run

---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0d818a9..1e699de 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -115,6 +115,8 @@ class Conductivity(Scattering):
         return self._N_time
     def _set_N_time(self, N_time):
         self._N_time = N_time
+        if self.time_max is None: # the time arrays are built by runTransport
+            return
         self.dtime = self.time_max / self._N_time
         self.time_array = np.arange(0, self.time_max, self.dtime)
         # integrand for tau_function
-- 
2.43.0


From 49118139a133d4b90b2f651c0c0bb36bbddce4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 11/31] fix: alpha and beta are defined after a run at T = 0

---
 cuprates_transport/conductivity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 1e699de..9ced64d 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -278,6 +278,9 @@ class Conductivity(Scattering):
                                                   self.kft, self.vft,
                                                   self.t_o_tau)
             self.sigma = coeff_tot
+            # no thermoelectric nor thermal response at T = 0
+            self.alpha = np.zeros((3,3))
+            self.beta  = np.zeros((3,3))
         else:
             sigma_tot = 0
             alpha_tot = 0
-- 
2.43.0


From d017d6c9ad06acc2c0443a97ac35d8d629362578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 12/31] fix: omegac_tau_func gives the z velocity to the
 scattering rate, for all discretizations

---
 cuprates_transport/conductivity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 9ced64d..5cb6dbd 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -316,7 +316,6 @@ class Conductivity(Scattering):
             return 0
 
     def omegac_tau_func(self):
-        dks = self.bandObject.dks / Angstrom # in m^-1
         kf = self.bandObject.kf
         vf = self.bandObject.vf # in m / s
         kf_perp = sqrt(kf[0, :]**2 + kf[1, :]**2) / Angstrom  # kf perp to B in m
@@ -324,7 +323,7 @@ class Conductivity(Scattering):
         prefactor = hbar / (2 * pi * e * self._Bamp)
         ## Function of k
         kf0, kf1, kf2 = kf[0, :], kf[1, :], kf[2, :]
-        vf0, vf1, vf2 = vf[0, :], vf[1, :], kf[2, :]
+        vf0, vf1, vf2 = vf[0, :], vf[1, :], vf[2, :]
         inverse_omegac_tau_k = (prefactor * 2*pi*kf_perp / vf_perp / picosecond *
                                 self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
         self.omegac_tau_k = 1 / inverse_omegac_tau_k
-- 
2.43.0


From ade0f20f5d9dfde922f4fd86f95a4149b7df6992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 13/31] fix: upper limit of the color scale of
 figScatteringColor

---
 cuprates_transport/conductivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 5cb6dbd..0931060 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -431,7 +431,7 @@ class Conductivity(Scattering):
         if gamma_min == None:
             gamma_min = min(gamma_min_list)
         if gamma_max == None:
-            gamma_min = min(gamma_min_list)
+            gamma_max = max(gamma_max_list)
         line.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes)
         cbar.minorticks_on()
-- 
2.43.0


From 73abb2479207178b7105302fd864eb9698669d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 14/31] fix: assigning scattering_params copies the given
 dictionary

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 0723b3b..93ac0c2 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -82,7 +82,7 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
-        self._scattering_params = scattering_params
+        self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
             setattr(self, param, value)  # Set each parameter as an attribute
-- 
2.43.0


From 6277f395f98b9a0964a0f883ad0fc16794479485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 15/31] fix: each Conductivity owns its list of scattering
 models

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 93ac0c2..2b504ad 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -23,7 +23,7 @@ def scattering_method(func):
 class Scattering:
     def __init__(self, scattering_models, scattering_params, **kwargs):
 
-        self.scattering_models = scattering_models
+        self.scattering_models = list(scattering_models) # own copy
         self._scattering_params = deepcopy(scattering_params)
         self.gamma_tot = np.empty(1) # [ps^-1] total scattering rate array
 
-- 
2.43.0


From 1d7a5b011cbd4ccde6d93eeabe1dc70d7b58ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 16/31] fix: the DOS scattering rate follows the velocities it
 is given

---
 cuprates_transport/scattering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 2b504ad..3ebb022 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -156,7 +156,8 @@ class Scattering:
         """
         dos_max = np.max(self.bandObject.dos_k)
         # value to normalize the DOS to a quantity without units
-        return self.gamma_dos_max * (self.bandObject.dos_k / dos_max)
+        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))
+        return self.gamma_dos_max * (dos_k / dos_max)
 
     # @scattering_method
     # def gamma_cmfp_func(self, vx, vy, vz):
-- 
2.43.0


From 541837e3958acf8cbf3fc49a80e6c6166bb7298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 17/31] fix: total filling and hole doping of an ADMR run

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 8905099..0e06eb7 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -66,9 +66,10 @@ class ADMR:
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
+        self.total_filling = 0
         for i in range(len(self.condObject_list)):
             self.total_filling += self.condObject_list[i].bandObject.n
-        self.total_hole_dopin = 1 - self.total_filling
+        self.total_hole_doping = 1 - self.total_filling
 
     def file_name_func(self):
         # To point to bandstructure parameters, we use just one band
-- 
2.43.0


From a45d934d761714731d3d96f10c692172bdbaecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 18/31] fix: fits use the current names of the ADMR attributes

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 4 ++--
 cuprates_transport/fitting_admr_series_multi_T.py | 6 +++---
 cuprates_transport/fitting_admr_series_oneT.py    | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bff76df..6dcd6e1 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -317,7 +317,7 @@ class FittingADMRParallel:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.condObject_dict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -325,7 +325,7 @@ class FittingADMRParallel:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index a09cd42..4ae6b3f 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -321,11 +321,11 @@ class FittingADMR:
             fig.text(0.84,0.84, r"$T$ (data) = " + str(self.member_dict[T]["data_T"]) + " K", fontsize=14)
             fig.text(0.84,0.79, r"$T$ (sim) = " + str(self.member_dict[T]["T"]) + " K", fontsize=14)
             fig.text(0.84,0.74, r"$p$ (data) = " + "{0:.2f}".format(self.member_dict[T]["data_p"]), fontsize=14)
-            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].totalHoleDoping), fontsize=14)
+            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].total_hole_doping), fontsize=14)
             #############################################
 
             #############################################
-            axes.set_xlim(0, self.admrObject.Btheta_max)
+            axes.set_xlim(0, self.admrObject_dict[T].Btheta_max)
             # axes.set_ylim(1+1.2*(min_y-1),1.2*(max_y-1)+1)
             axes.tick_params(axis='x', which='major', pad=7)
             axes.tick_params(axis='y', which='major', pad=8)
@@ -383,7 +383,7 @@ class FittingADMR:
                 plt.close(fig)
 
             ## Figure Parameters //////////////////////////////////////////////////////#
-            for iniCondObject in self.admrObject_dict[T].initialCondObjectDict.values():
+            for iniCondObject in self.admrObject_dict[T].condObject_list:
                 fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ef2c0f8..e31b861 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -231,7 +231,7 @@ class FittingADMR:
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
@@ -349,7 +349,7 @@ class FittingADMR:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.initialCondObjectDict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -357,7 +357,7 @@ class FittingADMR:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From cd86bd908b26770681fc5ecc34e4d76cb64f339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 19/31] fix: runFit stops on an unknown fit method, and only
 then

---
 cuprates_transport/fitting_admr_series_multi_T.py | 9 +++++----
 cuprates_transport/fitting_admr_series_oneT.py    | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 4ae6b3f..56071a9 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -242,20 +242,21 @@ class FittingADMR:
         ## Run fit algorithm
         if self.method=="least_square":
             out = minimize(self.compute_diff, self.pars)
-        if self.method=="shgo":
+        elif self.method=="shgo":
             out = minimize(self.compute_diff, self.pars,
                            method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n=100, iters=20)
-        if self.method=="ampgo":
+        elif self.method=="ampgo":
             out = minimize(self.compute_diff, self.pars,
                            method='ampgo')
-        if self.method=="dual_annealing":
+        elif self.method=="dual_annealing":
             out = minimize(self.compute_diff, self.pars,
                            method='dual_annealing')
-        if self.method=="differential_evolution":
+        elif self.method=="differential_evolution":
             out = minimize(self.compute_diff, self.pars,
                            method='differential_evolution')
         else:
             print("This method does not exist in the class")
+            return
 
         ## Display fit report
         report_fit(out)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index e31b861..8c227ed 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -192,17 +192,18 @@ class FittingADMR:
         ## Run fit algorithm
         if self.method=="least_square":
             out = minimize(self.compute_diff, self.pars)
-        if self.method=="shgo":
+        elif self.method=="shgo":
             out = minimize(self.compute_diff, self.pars,
                            method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n = 100, iters=20)
-        if self.method=="differential_evolution":
+        elif self.method=="differential_evolution":
             out = minimize(self.compute_diff, self.pars,
                            method='differential_evolution')
-        if self.method=="ampgo":
+        elif self.method=="ampgo":
             out = minimize(self.compute_diff, self.pars,
                            method='ampgo')
         else:
             print("This method does not exist in the class")
+            return
 
         ## Display fit report
         report_fit(out)
-- 
2.43.0


From acf4b830bb89e2944ba2c455d8f3a7e013521e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 20/31] fix: a fit parameter equal to zero does not cancel the
 update of the others

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index d421b6d..61b2aa0 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -205,10 +205,10 @@ class Fitness:
                 for T in self.T_list:
                     self.update_conditions(T, band, param, x[i])
 
-    def compute_fitness(self, x=np.array([0])):
+    def compute_fitness(self, x=None):
         """Compute chi2 = sum((sim[i] - data[i])**2)"""
         ## Update the params_dict with fit values
-        if x.all()!=0:
+        if x is not None:
             self.update_parameters(x)
         ## Compute sim, then diff
         diff_array = np.empty(0)
-- 
2.43.0


From 213c1b9d190b80fe83f3510a80cce52a360a3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 21/31] fix: all the free parameters of the multi-T fit reach
 the simulation

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 61b2aa0..4db40cb 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -116,10 +116,18 @@ class SimADMR:
 
     def update_params(self):
         for i, band in enumerate(self.bands_list):
+            condObject = self.admrObject.condObject_list[i]
+            ## Parameters outside of band_params and scattering_params
+            for param in ["a", "b", "c", "energy_scale", "number_of_bz"]:
+                if param in self.params_dict[band].keys():
+                    setattr(condObject.bandObject, param, self.params_dict[band][param])
+            for param in ["Bamp", "T", "N_time"]:
+                if param in self.params_dict[band].keys():
+                    setattr(condObject, param, self.params_dict[band][param])
             band_params = self.params_dict[band]["band_params"]
             scattering_params = self.params_dict[band]["scattering_params"]
-            self.admrObject.condObject_list[i].bandObject.band_params =  band_params
-            self.admrObject.condObject_list[i].scattering_params = scattering_params
+            condObject.bandObject.band_params =  band_params
+            condObject.scattering_params = scattering_params
 
     def compute_rhozz(self, Btheta_norm=0):
         """Calculate the simulated rhozz from ADMR object"""
-- 
2.43.0


From 8b0df6b48c74112e48445c89b2cce25e80b1e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 22/31] fix: scattering parameters can be free parameters of
 the one-temperature fits

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++++
 cuprates_transport/fitting_admr_series_oneT.py   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 6dcd6e1..8bbf3f9 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -161,6 +161,8 @@ class FittingADMRParallel:
                 self.member[pars_name] = self.pars[pars_name]
             elif pars_name in self.member["band_params"].keys():
                 self.member["band_params"][pars_name] = self.pars[pars_name]
+            elif pars_name in self.member["scattering_params"].keys():
+                self.member["scattering_params"][pars_name] = self.pars[pars_name]
 
         ## Compute ADMR ------------------------------------------------------------
         self.generate_admr()
@@ -400,6 +402,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
             fit_object.member[pars_name] = res.x[i]
         elif pars_name in fit_object.member["band_params"].keys():
             fit_object.member["band_params"][pars_name] = res.x[i]
+        elif pars_name in fit_object.member["scattering_params"].keys():
+            fit_object.member["scattering_params"][pars_name] = res.x[i]
         print(pars_name + " : " + "{0:g}".format(res.x[i]))
     ## Save BEST member to JSON
     fit_object.save_member_to_json(filename=filename)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 8c227ed..bc1f5e7 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -34,6 +34,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
         ## Differential evolution
         self.population  = population
@@ -164,6 +166,8 @@ class FittingADMR:
                 self.member[param_name] = self.pars[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = self.pars[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = self.pars[param_name].value
             print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
@@ -214,6 +218,8 @@ class FittingADMR:
                 self.member[param_name] = out.params[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = out.params[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From 2448b2ea9c1563bc4a1097c4fd154e5b8384ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 23/31] fix: the one-temperature fits own their bounds and data
 dictionaries

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++--
 cuprates_transport/fitting_admr_series_oneT.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 8bbf3f9..86f61f0 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -24,8 +24,8 @@ class FittingADMRParallel:
         ## Initialize
         self.init_member = deepcopy(init_member) # contains all the parameters to calculate ADMR
         self.member      = deepcopy(init_member) # contains all the parameters to calculate ADMR
-        self.bounds_dict = bounds_dict
-        self.data_dict   = data_dict
+        self.bounds_dict = deepcopy(bounds_dict)
+        self.data_dict   = deepcopy(data_dict)
         self.init_time   = time.time()
         self.popsize     = popsize # the popsize for the differential evolution
         self.folder      = folder
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index bc1f5e7..60e9aed 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -23,8 +23,8 @@ class FittingADMR:
         ## Initialize
         self.init_member = deepcopy(init_member)
         self.member      = deepcopy(init_member)
-        self.ranges_dict = ranges_dict
-        self.data_dict   = data_dict
+        self.ranges_dict = deepcopy(ranges_dict)
+        self.data_dict   = deepcopy(data_dict)
         self.folder      = folder
         self.normalized_data = normalized_data
         self.pipi_FSR    = pipi_FSR
-- 
2.43.0


From 9e73ab7b18e75ddefe9a6d12a98a88b0b2169759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 24/31] fix: fits write in the working directory, not in /,
 when no folder is given

---
 cuprates_transport/fitting_admr_parallel_oneT.py  |  7 ++++---
 cuprates_transport/fitting_admr_series_multi_T.py | 11 ++++++-----
 cuprates_transport/fitting_admr_series_oneT.py    |  7 ++++---
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 86f61f0..ebdf3c8 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -1,5 +1,6 @@
 import json
 import numpy as np
+import os
 import time
 import sys
 from copy import deepcopy
@@ -198,7 +199,7 @@ class FittingADMRParallel:
         return self.compute_diff2(x, verbose=True)
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member = json.load(f)
 
 
@@ -208,7 +209,7 @@ class FittingADMRParallel:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
             "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-        path = self.folder + "/" + filename + ".json"
+        path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
 
@@ -328,7 +329,7 @@ class FittingADMRParallel:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
                 "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-            path = self.folder + "/" + figname + ".pdf"
+            path = os.path.join(self.folder, figname + ".pdf")
             file_figures = PdfPages(path)
             for fig in fig_list:
                 file_figures.savefig(fig)
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 56071a9..7fb0f90 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -1,5 +1,6 @@
 import json
 import numpy as np
+import os
 import time
 from copy import deepcopy
 from lmfit import minimize, Parameters, report_fit
@@ -279,19 +280,19 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member_dict = json.load(f)
 
 
     def save_member_to_json(self, filename=None):
         self.produce_ADMR_object()
         if filename==None:
-            path = self.folder + "/data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
+            path = os.path.join(self.folder, "data_") + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
             for T in self.data_T_list:
                 path += "{0:.1f}".format(self.member_dict[T]["data_T"]) + "K_"
             path += "fit_.json"
         else:
-            path = self.folder + "/" + filename + ".json"
+            path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member_dict, f, indent=4)
 
@@ -390,12 +391,12 @@ class FittingADMR:
         ## Save figures list --------------
         if fig_save == True:
             if figname==None:
-                path = self.folder + "/data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
+                path = os.path.join(self.folder, "data_") + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
                 for T in self.data_T_list:
                     path += "{0:.1f}".format(self.member_dict[T]["data_T"]) + "K_"
                 path += "fit_.pdf"
             else:
-                path = self.folder + "/" + figname + ".pdf"
+                path = os.path.join(self.folder, figname + ".pdf")
 
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 60e9aed..85c421a 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -1,5 +1,6 @@
 import json
 import numpy as np
+import os
 import time
 from copy import deepcopy
 from lmfit import minimize, Parameters, report_fit
@@ -229,7 +230,7 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member = json.load(f)
 
 
@@ -239,7 +240,7 @@ class FittingADMR:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
             "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-        path = self.folder + "/" + filename + ".json"
+        path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
 
@@ -365,7 +366,7 @@ class FittingADMR:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
                 "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-            path = self.folder + "/" + figname + ".pdf"
+            path = os.path.join(self.folder, figname + ".pdf")
             file_figures = PdfPages(path)
             for fig in fig_list:
                 file_figures.savefig(fig)
-- 
2.43.0


From 6dfffcb60cfe07182ebb821d50d084eb98d852d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 25/31] fix: member counter of the parallel fit is read under
 its lock

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index ebdf3c8..f925d30 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -184,7 +184,7 @@ class FittingADMRParallel:
         if verbose:
             with globals()['shared_num_member'].get_lock():
                 globals()['shared_num_member'].value += 1
-            num_member = globals()['shared_num_member'].value
+                num_member = globals()['shared_num_member'].value
             num_gen = np.floor(num_member / (self.popsize*len(self.bounds))) + 1
 
             print('Gen ' + str(int(num_gen)) + ' ---- ' +
-- 
2.43.0


From e01431d5809b4cff362f2c72b55d2974bbc57e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 26/31] fix: workers of the parallel fits are ended when the
 fit fails

---
 .../fitting_admr_parallel_multiT.py            | 18 ++++++++++--------
 .../fitting_admr_parallel_oneT.py              | 15 ++++++++-------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 4db40cb..b976506 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -362,14 +362,16 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
         print(text)
         sys.stdout.flush()
     ## Differential evolution
-    res = differential_evolution(fitness_obj.compute_fitness, fitness_obj.bounds,
-                                updating='deferred', workers=pool.map,
-                                popsize=popsize, mutation=mutation,
-                                recombination=recombination, polish=False,
-                                callback=callback)
-    # res = shgo(fitness_obj.compute_fitness, fitness_obj.bounds,
-    #                              workers=pool.map, callback=callback)
-    pool.terminate()
+    try:
+        res = differential_evolution(fitness_obj.compute_fitness, fitness_obj.bounds,
+                                    updating='deferred', workers=pool.map,
+                                    popsize=popsize, mutation=mutation,
+                                    recombination=recombination, polish=False,
+                                    callback=callback)
+        # res = shgo(fitness_obj.compute_fitness, fitness_obj.bounds,
+        #                              workers=pool.map, callback=callback)
+    finally:
+        pool.terminate()
     ## Export final parameters from the fit
     fitness_obj.update_parameters(res.x)
     fitness_obj.compute_fitness()
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index f925d30..5af434f 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -390,13 +390,14 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
     c = callback()
 
     ## Differential evolution
-    res = differential_evolution(fit_object.compute_diff2, fit_object.bounds,
-                                 updating='deferred', workers=pool.map,
-                                 popsize=popsize, mutation=mutation,
-                                 recombination=recombination, polish=False,
-                                 callback=c)
-
-    pool.terminate()
+    try:
+        res = differential_evolution(fit_object.compute_diff2, fit_object.bounds,
+                                     updating='deferred', workers=pool.map,
+                                     popsize=popsize, mutation=mutation,
+                                     recombination=recombination, polish=False,
+                                     callback=c)
+    finally:
+        pool.terminate()
     ## Export final parameters from the fit
     for i, pars_name in enumerate(fit_object.free_pars_name):
         if pars_name in fit_object.member.keys():
-- 
2.43.0


From a281d4c610b1fa09810bd5d3e43840a26dccfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 27/31] fix: members of the multi-temperature fit are reloaded
 with their temperatures

---
 cuprates_transport/fitting_admr_series_multi_T.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 7fb0f90..bb20561 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -281,7 +281,9 @@ class FittingADMR:
 
     def load_member_from_json(self):
         with open(os.path.join(self.folder, self.json_name), "r") as f:
-            self.member_dict = json.load(f)
+            member_dict = json.load(f)
+        # the temperatures, keys of the dictionary, are strings in JSON
+        self.member_dict = {T: member_dict[str(T)] for T in self.data_T_list}
 
 
     def save_member_to_json(self, filename=None):
-- 
2.43.0


From 06b1905f5f46375ea318327c4929c8411d2f7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 28/31] fix: data are normalized at the same angle as the
 simulation in the fits

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 4 ++--
 cuprates_transport/fitting_admr_series_multi_T.py | 4 ++--
 cuprates_transport/fitting_admr_series_oneT.py    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 5af434f..3dde30e 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -148,7 +148,7 @@ class FittingADMRParallel:
             rzz_i = np.interp(self.Btheta_array, theta, rzz) # "i" is for interpolated
             ## Store data
             self.rhozz_data_matrix[i, :] = rzz_i * rhozz_0
-            self.rzz_data_matrix[i, :] = rzz_i
+            self.rzz_data_matrix[i, :] = rzz_i / np.interp(self.member.get("Btheta_norm", 0), theta, rzz)
 
 
     def compute_diff2(self, x, verbose=False):
@@ -236,7 +236,7 @@ class FittingADMRParallel:
             rhozz = rzz * rhozz_0
             self.Btheta_data_dict[phi] = theta[theta<=Btheta_cut]
             self.rhozz_data_dict[phi]  = rhozz[theta<=Btheta_cut]
-            self.rzz_data_dict[phi]    = rzz[theta<=Btheta_cut]
+            self.rzz_data_dict[phi]    = rzz[theta<=Btheta_cut] / np.interp(self.member.get("Btheta_norm", 0), theta, rzz)
 
         ## Run ADMR
         self.generate_admr()
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index bb20561..9f20cb1 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -164,10 +164,10 @@ class FittingADMR:
                 rzz_i = np.interp(self.Btheta_dict[T], theta, rzz) # "i" is for interpolated
 
                 rhozz_data_i_matrix[i, :] = rzz_i * rhozz_0
-                rzz_data_i_matrix[i, :] = rzz_i
+                rzz_data_i_matrix[i, :] = rzz_i / np.interp(self.member_dict[T].get("Btheta_norm", 0), theta, rzz)
                 self.Btheta_data_dict[T, phi] = theta[theta<=Btheta_cut]
                 self.rhozz_data_dict[T, phi]  = rzz[theta<=Btheta_cut] * rhozz_0
-                self.rzz_data_dict[T, phi]    = rzz[theta<=Btheta_cut]
+                self.rzz_data_dict[T, phi]    = rzz[theta<=Btheta_cut] / np.interp(self.member_dict[T].get("Btheta_norm", 0), theta, rzz)
                 self.rhozz_0_data_dict[T, phi]     = rhozz_0 # Ohm m
 
             self.rhozz_data_i_dict[T] = rhozz_data_i_matrix
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 85c421a..b4f6f8c 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -142,7 +142,7 @@ class FittingADMR:
             rzz_i = np.interp(self.Btheta_array, theta, rzz) # "i" is for interpolated
 
             self.rhozz_data_matrix[i, :] = rzz_i * rhozz_0
-            self.rzz_data_matrix[i, :] = rzz_i
+            self.rzz_data_matrix[i, :] = rzz_i / np.interp(self.member.get("Btheta_norm", 0), theta, rzz)
 
 
     def compute_diff(self, pars):
@@ -273,7 +273,7 @@ class FittingADMR:
             rhozz = rzz * rhozz_0
             self.Btheta_data_dict[phi] = theta[theta<=Btheta_cut]
             self.rhozz_data_dict[phi]  = rhozz[theta<=Btheta_cut]
-            self.rzz_data_dict[phi]    = rzz[theta<=Btheta_cut]
+            self.rzz_data_dict[phi]    = rzz[theta<=Btheta_cut] / np.interp(self.member.get("Btheta_norm", 0), theta, rzz)
 
         ## Run ADMR
         self.produce_ADMR_object()
-- 
2.43.0


From 3ea2b20d83f2558113e6cb4cedd787a5f2f4f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 29/31] fix: rzz is normalised at its own angle whatever the
 order of the polar angles

---
 cuprates_transport/admr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 0e06eb7..0a0a955 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -58,9 +58,11 @@ class ADMR:
 
         ## Normalization
         self.rzz_array = np.empty_like(self.rhozz_array)
+        index_order = np.argsort(self.Btheta_array) # interp needs sorted angles
         for i in range(len(self.Bphi_array)):
             rhozz_norm = np.interp(self.Btheta_norm,
-                                   self.Btheta_array, self.rhozz_array[i,:])
+                                   self.Btheta_array[index_order],
+                                   self.rhozz_array[i,:][index_order])
             self.rzz_array[i,:] = self.rhozz_array[i,:] / rhozz_norm
         self.update_total_doping()
 
-- 
2.43.0


From 5295f2bf34d554124f31430d1cd3552bf5e7d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 30/31] fix: the parallel fits start at least one worker

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 cuprates_transport/fitting_admr_parallel_oneT.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index b976506..ccd9829 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -336,7 +336,7 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
     ## Initialize workers
     if num_cpu is None:
         num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+    num_workers = max(1, int(percent_workers / 100 * num_cpu))
     print("# Parallelization | CPU cores: " + str(num_cpu) + " | Workers: " + str(num_workers) )
     ## Initialize counter
     num_member = Value('i', 0)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 3dde30e..cd214f5 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -355,7 +355,7 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
                 normalized_data=normalized_data)
     if num_cpu is None:
         num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+    num_workers = max(1, int(percent_workers / 100 * num_cpu))
     print("# cpu cores: " + str(num_cpu))
     print("# workers: " + str(num_workers))
     ## Initialize counter
-- 
2.43.0


From 73c95913f6c89d13b179f067393543807e17fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 31/31] fix: the multi-temperature series fit owns its member

---
 cuprates_transport/fitting_admr_series_multi_T.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 9f20cb1..c527a04 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -26,7 +26,7 @@ class FittingADMR:
         self.init_member = deepcopy(init_member)
         self.ranges_dict = deepcopy(ranges_dict)
         self.data_dict   = deepcopy(data_dict)
-        self.data_T_list = init_member["data_T"]
+        self.data_T_list = self.init_member["data_T"]
         self.folder      = folder
         self.normalized_data = normalized_data
         self.pipi_FSR    = pipi_FSR
@@ -50,7 +50,7 @@ class FittingADMR:
         for param_name, param_value in init_member.items(): # then break the dictionaries of temperatures in member
             if type(param_value)==dict and param_name!="band_params":
                 for T in self.data_T_list:
-                    self.member_dict[T][param_name] = init_member[param_name][T]
+                    self.member_dict[T][param_name] = deepcopy(init_member[param_name][T])
 
         ## Objects
         if pipi_FSR==False:
-- 
2.43.0

