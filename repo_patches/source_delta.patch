From 189c56f4855e91f10ad82b5c00b1fa02b2eed5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 01/45] fix: contact surfaces can be imported (class name used
 in its own annotations)

---
 hyvr/geo/contact_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 82637c5..6a8b4da 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -37,7 +37,7 @@ class ContactSurface:
 
 
 
-    def use_lower_surface_value(self, other_surface: ContactSurface ):
+    def use_lower_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
@@ -48,7 +48,7 @@ class ContactSurface:
 
 
 
-    def use_higher_surface_value(self, other_surface: ContactSurface ):
+    def use_higher_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
-- 
2.43.0


From bfd9dd182e21d7315ca699f9780b0bb903508151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 02/45] fix: sin, cos and sqrt are undefined in hyvr.optimized

---
 hyvr/optimized.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b317e72..e8dacd5 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -53,9 +53,9 @@ def set_anisotropic_ktensor(ktensors: npt.NDArray[np.float64],
                 kiso = k_iso[i,j,k]
                 a00 = kiso*(sink**2 + cosk**2*(cosp**2 + a*sinp**2))
                 a01 = kiso*(1-a)*sink*cosk*sinp**2
-                a02 = kiso*((a-1)*(sin(kappa+2*psi)-sin(kappa-2*psi)))/4
+                a02 = kiso*((a-1)*(np.sin(kappa+2*psi)-np.sin(kappa-2*psi)))/4
                 a11 = kiso*((a-1)*sink**2*sinp**2+1)
-                a12 = kiso*((1-a)*(cos(kappa-2*psi)-cos(kappa+2*psi)))/4
+                a12 = kiso*((1-a)*(np.cos(kappa-2*psi)-np.cos(kappa+2*psi)))/4
                 a22 = kiso*(a*cosp**2+sinp**2)
 
                 ktensors[i,j,k,0,0] = a00
@@ -108,7 +108,7 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
         total_dist = 0
         j = ic + 1 # this is to make sure j is initialized
         for j in range(ic+1, nc):
-            total_dist += sqrt((xc[j] - xc[j-1]) ** 2 + (yc[j] - yc[j-1]) ** 2)
+            total_dist += np.sqrt((xc[j] - xc[j-1]) ** 2 + (yc[j] - yc[j-1]) ** 2)
             if total_dist > tol:
                 idx.append(j)
                 break
-- 
2.43.0


From ad5895d605f23612452ba96d4618711815592e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 03/45] fix: np.float does not exist any more in numpy, use
 np.float64

---
 hyvr/assign_points.py      |  6 +++---
 hyvr/geo/ae_realization.py |  4 ++--
 hyvr/geo/channel_ae.pyx    | 28 ++++++++++++++--------------
 hyvr/geo/model.py          |  8 ++++----
 hyvr/geo/sheet_ae.py       | 16 ++++++++--------
 hyvr/geo/sheet_ae.pyx      | 16 ++++++++--------
 hyvr/geo/trough_ae.pyx     | 34 +++++++++++++++++-----------------
 7 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index d4b5669..aefcdf7 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -61,13 +61,13 @@ def assign_points(model):
     hat_array = -1*np.ones((nx, ny, nz), dtype=np.int32)
 
     # angles
-    azim_array = np.zeros((nx, ny, nz), dtype=np.float)
-    dip_array = np.zeros((nx, ny, nz), dtype=np.float)
+    azim_array = np.zeros((nx, ny, nz), dtype=np.float64)
+    dip_array = np.zeros((nx, ny, nz), dtype=np.float64)
 
 
     # container for passing facies, ae, ha, and hat, and azimuth and dip
     geo_ids = np.empty(4, dtype=np.int32)
-    angles = np.empty(2, dtype=np.float)
+    angles = np.empty(2, dtype=np.float64)
 
     total_n = nx * ny
 
diff --git a/hyvr/geo/ae_realization.py b/hyvr/geo/ae_realization.py
index 4988634..d7a04e9 100644
--- a/hyvr/geo/ae_realization.py
+++ b/hyvr/geo/ae_realization.py
@@ -117,8 +117,8 @@ class AERealization:
         self.object_zmins = np.array(self.object_zmin_list)
         self.object_zmaxs = np.array(self.object_zmax_list)
         # get the rest from the object list
-        self.object_azim = np.zeros(self.n_objects, dtype=np.float)
-        self.object_dip = np.zeros(self.n_objects, dtype=np.float)
+        self.object_azim = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_dip = np.zeros(self.n_objects, dtype=np.float64)
         self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 43edc15..4a1bad5 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -16,17 +16,17 @@ cdef class ChannelAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i, nx, ny, j, k, max_len_centerline
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_width = np.zeros(self.n_objects, dtype=np.float)
-        self.object_depth = np.zeros(self.n_objects, dtype=np.float)
-        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_width = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_depth = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float64)
         self.object_len_centerline = np.zeros(self.n_objects, dtype=np.int32)
-        self.object_ztop = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float)
+        self.object_ztop = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
@@ -59,10 +59,10 @@ cdef class ChannelAE(AERealization):
             max_len_centerline = np.max(self.object_len_centerline)
         else:
             max_len_centerline = 0
-        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
+        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             for j in range(self.object_len_centerline[i]):
diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 8ffb396..b6e5503 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -175,13 +175,13 @@ class Model:
         # Initialise storage arrays:
         # hydraulic conductivity
         self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # porosity
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # anisotropy ratio
         self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
@@ -289,7 +289,7 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float)
+        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
         ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 1c15e83..d1ec85c 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -14,20 +14,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
diff --git a/hyvr/geo/sheet_ae.pyx b/hyvr/geo/sheet_ae.pyx
index 4123a52..a11d644 100644
--- a/hyvr/geo/sheet_ae.pyx
+++ b/hyvr/geo/sheet_ae.pyx
@@ -9,20 +9,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 5f05c34..54565ab 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -17,23 +17,23 @@ cdef class TroughAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i
-        self.object_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_b = np.zeros(self.n_objects, dtype=np.float)
-        self.object_c = np.zeros(self.n_objects, dtype=np.float)
-        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float)
-        self.object_alpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
+        self.object_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_b = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_c = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_alpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_structure = np.zeros(self.n_objects, dtype=np.int32)
 
-- 
2.43.0


From 1916af9776d277302b5c12995a6e5c76f9842747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 04/45] fix: contact model names are accepted in any case by
 the parser but not by ContactSurface

---
 hyvr/geo/contact_surface.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 6a8b4da..f2e2c6a 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -11,7 +11,8 @@ class ContactSurface:
         self.nx = grid.nx
         self.ny = grid.ny
 
-        if kwargs['mode'] == "random":
+        mode = kwargs['mode'].lower()
+        if mode == "random":
             for key in ["z", "var", "corlx", "corly"]:
                 if not key in kwargs:
                     raise ValueError(key + " is missing for Strata option 'random'!")
@@ -26,13 +27,13 @@ class ContactSurface:
             self.zmax = np.max(self.surface)
             self.zmin = np.min(self.surface)
 
-        elif kwargs['mode'] == "flat":
+        elif mode == "flat":
             self.surface = self.z * np.ones((grid.nx, grid.ny))
             self.zmean = self.z
             self.zmin = self.z
             self.zmax = self.z
 
-        elif self.mode == "dem":
+        elif mode == "dem":
             raise NotImplementedError("This is not implemented yet!")
 
 
-- 
2.43.0


From 825f62ad839d6af711a8a907db31e5b2cd4638a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 05/45] fix: --overwrite/flag_ow is ignored when the run
 directory exists

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 532af78..672375d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -498,7 +498,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if overwrite_old_output is None:
         overwrite_old_output = run['overwrite_old_output']
     if run['rundir'].exists():
-        if run['overwrite_old_output'] is True:
+        if overwrite_old_output is True:
             # If it exists, we just delete everything in it
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
-- 
2.43.0


From 3f0a303d83cdbb465c6ca3217a0fe3549c3cc4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 06/45] fix: bulbset_dist is required for bulb_sets, not for
 bulb

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 672375d..d5c349a 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -280,7 +280,7 @@ def parse_inifile(p):
         if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
             assert_exists('dipset_dist', dictionary, section)
         # if structure is 'bulb_sets', require 'bulbset_dist'
-        if elements[section]['structure'] == 'bulb' or elements[section]['structure'] == 'random':
+        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':
             assert_exists('bulbset_dist', dictionary, section)
 
         # lag surface facies
-- 
2.43.0


From f8ae10a1974421b40b9bf18d7df29198f494bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 07/45] fix: modeldir option crashes with a TypeError or
 NameError

---
 hyvr/input/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index d5c349a..a3090f7 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -145,14 +145,16 @@ def parameters(inifile):
         # either inipath or the chosen modeldir
         if run['modeldir'] is None:
             run['modeldir'] = ini_path
-        if run['modeldir'] == 'select':
+        elif run['modeldir'] == 'select':
             directory = input(
                 'Please input the model directory save path, or press <enter> to'
                 'save in default directory:\n')
-            if len(run['modeldir']) == 0:
-                run['modeldir'] = inipath
+            if len(directory) == 0:
+                run['modeldir'] = ini_path
             else:
                 run['modeldir'] = pathlib.Path(directory).resolve()
+        else:
+            run['modeldir'] = pathlib.Path(run['modeldir']).resolve()
         run['rundir'] = run['modeldir'] / run['runname']
 
     return run, model, strata, hydraulics, flowtrans, elements
-- 
2.43.0


From b82d6483c8f6c78cd10fbe8e50b02a934cfccc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 08/45] fix: background dip of old-format elements is read from
 the azimuth

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index a3090f7..dbfe7fe 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -345,7 +345,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['bg'] is not None:
             elem['bg_facies'] = elem['bg'][0]
             elem['bg_azim'] = elem['bg'][1]
-            elem['bg_dip'] = elem['bg'][1]
+            elem['bg_dip'] = elem['bg'][2]
         else:
             elem['bg_facies'] = -1
             elem['bg_azim'] = float('NaN')
-- 
2.43.0


From 91052c0ad253f7818bd36ffc059822b9a259f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 09/45] fix: expand_shape is wrong for more than two dimensions

---
 hyvr/input/option_parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index b11d1b9..3fd308b 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -402,7 +402,7 @@ def expand_shape(shape):
     for i in range(1, len(shape)):
         next = [shape[i]] * shape[i-1]
         for j in range(1, i):
-            next = [next] * shape[j]
+            next = [next] * shape[i-1-j]
         expanded.append(next)
     return expanded
 
-- 
2.43.0


From 6d0f3e0d2a0fb05d311108f0c2ab122af494a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 10/45] fix: lists with three or more levels are parsed wrongly

---
 hyvr/input/option_parsing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 3fd308b..e41d6d6 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -472,9 +472,10 @@ def parse_list(string, dtype):
     else: # it's just a single item
         return dtype(s)
     if s[0] == '[': # it's a list of lists
-        splitted = s.split('],')
+        closing = ']' * (len(s) - len(s.lstrip('['))) # this closes one item of the list
+        splitted = s.split(closing + ',')
         for i in range(len(splitted)-1):
-            splitted[i] += ']' # splitting removed the closing bracket from all but the last item
+            splitted[i] += closing # splitting removed the closing brackets from all but the last item
         l = list(map(lambda x: parse_list(x, dtype), splitted))
     else:
         splitted = s.split(',')
-- 
2.43.0


From c83660bb8c1341d6c295ba8e98870a6ce31afbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 11/45] fix: the model top surface is at zmax, not at lz

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b6e5503..f58943c 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -106,7 +106,7 @@ class Model:
             'strata',
         ]
 
-        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.lz)
+        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
         for si in range(self.n_strata):
             # create top surface
             if si == self.n_strata - 1:
-- 
2.43.0


From 057cfd706496fe221cc66a9968490ef75a5e2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 12/45] fix: object numbers are not passed on to the arrays
 used for assigning cells

---
 hyvr/geo/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index f58943c..0b9bb94 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -144,8 +144,9 @@ class Model:
             for ae in stratum.aes:
                 ae.num = num_ae
                 num_ae += 1
-                for obj in ae.object_list:
+                for oi, obj in enumerate(ae.object_list):
                     obj.num_ha = num_ha
+                    ae.object_num_ha[oi] = num_ha
                     num_ha += 1
 
 
-- 
2.43.0


From e54257f3727e902c59771d2e1e93584b1a0b76c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 13/45] fix: homogeneous models crash with KeyError

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 0b9bb94..b0ec5db 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -283,7 +283,7 @@ class Model:
 
         else:
             # Homogeneous case
-            for hy_idx, hyi in enumerate(hydraulics['hydro']):
+            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                 hyi = hy_idx
                 k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                 poros[fac == hyi] = hydraulics['n'][hy_idx]
-- 
2.43.0


From 5bdfd0e9d116fb7ad3efe5ad85e42339196b81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 14/45] fix: attributes of sheets are undefined before they are
 used

---
 hyvr/geo/sheet.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index eeed2e8..b09b566 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -10,19 +10,19 @@ class Sheet:
     """
     This class holds parameters for single sheet objects.
     """
-    dipsets: npt.NDArray[np.float64]
-    num_facies: npt.NDArray[np.float64]
-    zmin: npt.NDArray[np.float64]
-    zmax: npt.NDArray[np.float64]
-    dip: npt.NDArray[np.float64]
-    azim: npt.NDArray[np.float64]
-    shift: npt.NDArray[np.float64]
-    layer_dist: npt.NDArray[np.float64]
-    normvec_x: npt.NDArray[np.float64]
-    normvec_y: npt.NDArray[np.float64]
-    normvec_z: npt.NDArray[np.float64]
-    facies: npt.NDArray[np.int32]
-    num_ha: npt.NDArray[np.int32]
+    dipsets: bool = False
+    num_facies: int = 0
+    zmin: float = 0.0
+    zmax: float = 0.0
+    dip: float = 0.0
+    azim: float = 0.0
+    shift: float = 0.0
+    layer_dist: float = 0.0
+    normvec_x: float = 0.0
+    normvec_y: float = 0.0
+    normvec_z: float = 0.0
+    facies: int = 0
+    num_ha: int = 0
     facies_array: npt.NDArray[np.int32]
     bottom_surface: ContactSurface
     top_surface: ContactSurface
-- 
2.43.0


From be1a88e27a8a9790beeff63a1d467310a47e6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 15/45] fix: sheets below the AE bottom change the top surface
 instead of their own bottom

---
 hyvr/geo/sheet_ae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index d1ec85c..8a1b806 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -87,7 +87,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
-- 
2.43.0


From d6277c8c3bd99f1024160d976b1cb9864f53b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 16/45] fix: not enough layers for dipping sheets, facies are
 looked up out of bounds

---
 hyvr/geo/sheet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index b09b566..9110218 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -73,9 +73,9 @@ class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
-            # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            # The distance to the zero-plane is at most lx/2 + ly/2 + lz (plus the
+            # random shift) in both directions. 10 is added just to be sure
+            self.num_facies = int(np.ceil((grid.lx + grid.ly + 2*grid.lz)/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
-- 
2.43.0


From f86b4154471dc25df84163a29be54049085b1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 17/45] fix: a single value is not expanded to a shape with
 several dimensions

---
 hyvr/input/option_parsing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index e41d6d6..ac829bc 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -293,7 +293,10 @@ class Option():
                             if depth < mindepth:
                                 raise ValueError('Option ' + self.name + ' in section ' +
                                                 section.name + ' can not be expanded!')
-                        shape = expand_shape(shape)
+                    elif -1 in shape:
+                        raise ValueError('Option ' + self.name + ' in section ' +
+                                         section.name + ' can not be expanded!')
+                    shape = expand_shape(shape)
 
                 # Now we have an expanded shape, so only two tasks remain:
                 # * auto-expansion
-- 
2.43.0


From a216e2844da5cf4bf708ddb2b63fb512df5117ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 18/45] fix: background cells have the object number -1, not 0

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b0ec5db..833a7a2 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -228,7 +228,7 @@ class Model:
                 # for si, aei in enumerate(ae_lu):
                 for stratum in self.strata:
                     for ae in stratum.aes:
-                        m0 = ha_arr == 0
+                        m0 = ha_arr == -1
                         ms = ae_arr == ae.num
                         ae_mask = m0 & ms     # Get material that equals zero within in architectural element
                         if np.all(ae_mask == False):
-- 
2.43.0


From 5e80776e86af1f43d11d7b389a36c89b8024ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 19/45] fix: conductivity trends of an AE are applied to the
 full domain

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 833a7a2..a8c9226 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -261,10 +261,10 @@ class Model:
                         if ae.type_params['k_ztrend'] is not None:
                             # Vertical trend
                             zf_vec = np.linspace(*ae.type_params['k_ztrend'], self.grid.nz)  # Z factor at each elevation
-                            k_iso *= zf_vec
+                            k_iso[ms] = (k_iso * zf_vec)[ms]
                         if ae.type_params['k_xtrend'] is not None:
                             xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
-                            k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                            k_iso[ms] = np.transpose(k_iso.transpose() * xf_vec)[ms]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
-- 
2.43.0


From f05ccb3107f0038a774409193e175ff790835331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 20/45] fix: trends in x-direction are lost in the k_iso and
 poros output

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index a8c9226..bc41132 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -272,14 +272,14 @@ class Model:
                     k_iso *= zf_vec
                 if hydraulics['k_xtrend'] is not None:
                     xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
-                    k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                    k_iso[:] = np.transpose(k_iso.transpose() * xf_vec)
 
                 if hydraulics['n_ztrend'] is not None:
                     zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation
                     poros *= zf_vec
                 if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
-                   poros = np.transpose(poros.transpose() * xf_vec)
+                   poros[:] = np.transpose(poros.transpose() * xf_vec)
 
         else:
             # Homogeneous case
-- 
2.43.0


From 1200a29538887c4570e41aff6f7ab0c556bb6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 21/45] fix: mf6 output crashes with NameError if gradh is
 given

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 867fc1e..f224bd0 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -329,9 +329,9 @@ def to_mf6(model, fname):
         hin = model.flowtrans['hin'][0]
         hout = model.flowtrans['hout'][0]
 
-    elif flowtrans['gradh'] is not None:
+    elif model.flowtrans['gradh'] is not None:
         hout = 1
-        hin = hout + model.grid.lx * flowtrans['gradh']
+        hin = hout + model.grid.lx * model.flowtrans['gradh']
 
     if np.any([model.flowtrans['hin'] is not None, model.flowtrans['gradh'] is not None]):
         chd_rec = []
-- 
2.43.0


From bbfd8cc186facce0a1c3b447aac5ea5f9103552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 22/45] fix: cells inside a channel are skipped because of a
 missing division by dy

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 4a1bad5..791947c 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -268,7 +268,7 @@ cdef class ChannelAE(AERealization):
                     #
                     #     y(x) = sqrt(radius**2 - x**2)
                     #
-                    ny = int(sqrt(radius**2 - (i*grid.dx)**2))
+                    ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)
                     for j in range(ny):
                         if y_idx-j >= 0 and y_idx+j < grid.ny:
                             self.object_dont_check[oi,x_idx+i, y_idx+j] = 1
-- 
2.43.0


From 8782ecb597c9d6935fefa02cc8759588fc4435f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 23/45] fix: channels with a size trend crash with a TypeError

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 791947c..82110ae 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -112,7 +112,7 @@ cdef class ChannelAE(AERealization):
         dz = self.type_params['agg']
         if self.type_params['size_ztrend'] is not None:
             z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
-            zfactor = np.interp(z, [grid.z0, grid.zmax], *self.type_params['size_ztrend'])
+            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
         else:
             zfactor = 1
         depth = self.type_params['depth'] * zfactor
-- 
2.43.0


From cf93aa212f039488d0c337e8966e37a8dcd5fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 24/45] fix: orientation of bulb structures is rotated in the
 wrong direction

---
 hyvr/geo/trough_ae.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 54565ab..8c03597 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -208,8 +208,8 @@ cdef class TroughAE(AERealization):
             #
             # The gradient is (up to a scalar)
             #
-            #             /  nx*cos/a + ny*sin/b  \
-            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             /  nx*cos/a - ny*sin/b  \
+            # grad f(x) = |  nx*sin/a + ny*cos/b  |
             #             \          nz/c         /
             #
             # where nx, ny, nz are the normalized distances.
@@ -228,8 +228,8 @@ cdef class TroughAE(AERealization):
             len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
             if len_normvec != 0:
                 normvec_x = (aaa*self.object_cosalpha[oi]
-                             + bbb*self.object_sinalpha[oi])/len_normvec
-                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             - bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (aaa*self.object_sinalpha[oi]
                              + bbb*self.object_cosalpha[oi])/len_normvec
                 normvec_z = ccc/len_normvec
                 len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
-- 
2.43.0


From 8d995cfa63e96e7bbeaff5b41b44ae78e92793e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 25/45] fix: facies of dipping channel layers are looked up out
 of bounds below the zero plane

---
 hyvr/geo/channel_ae.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 82110ae..8d727ab 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -5,7 +5,7 @@ from hyvr.geo.channel import Channel
 
 cimport cython
 cimport numpy as np
-from libc.math cimport sqrt, atan2
+from libc.math cimport sqrt, atan2, ceil
 from hyvr.geo.ae_realization cimport AERealization
 
 
@@ -300,7 +300,8 @@ cdef class ChannelAE(AERealization):
                 # To correct for the distance in z-direction we subtract |dz| * cos(dip)
                 # note that dz is negative here
                 d = dist_along_curve * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
-                n = int(d/self.object_layer_dist[oi])
+                # the lowest possible d is -depth, ceil(depth/layer_dist) layers are reserved for this
+                n = int(d/self.object_layer_dist[oi]) + int(ceil(self.object_depth[oi]/self.object_layer_dist[oi]))
                 geo_ids[0] = self.object_facies_array[oi,n]
                 return
             else:
-- 
2.43.0


From 9af62e3b39600ac4eb8b7071aabaf312be7b0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 26/45] fix: cells exactly on a contact surface are not
 assigned to any AE

---
 hyvr/assign_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index aefcdf7..e192f3f 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -315,7 +315,7 @@ def maybe_assign_points_to_ae(
         return 0
     z_above = top_surface[x_idx, y_idx]
     z_below = bottom_surface[x_idx, y_idx]
-    if z_below < z and z < z_above:
+    if z_below <= z and z <= z_above:
         geo_ids[0] = ae.bg_facies
         angles[0] = ae.bg_azim
         angles[1] = ae.bg_dip
-- 
2.43.0


From 53a3c29b3c0af651b8f6e7d4f7366f487608c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 27/45] fix: vtr output has too many cell edges for some grids
 because of rounding errors

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index f224bd0..1a36fd5 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -155,9 +155,9 @@ def to_vtr(model, fname):
     try:
         from pyevtk.hl import gridToVTK
         data_dict = {key:model.data[key] for key in model.data if key != "ktensors"}
-        xv = np.arange(model.grid.x0, model.grid.xmax+model.grid.dx, model.grid.dx)
-        yv = np.arange(model.grid.y0, model.grid.ymax+model.grid.dy, model.grid.dy)
-        zv = np.arange(model.grid.z0, model.grid.zmax+model.grid.dz, model.grid.dz)
+        xv = np.linspace(model.grid.x0, model.grid.xmax, model.grid.nx+1)
+        yv = np.linspace(model.grid.y0, model.grid.ymax, model.grid.ny+1)
+        zv = np.linspace(model.grid.z0, model.grid.zmax, model.grid.nz+1)
         gridToVTK(fname, xv, yv, zv, cellData=data_dict)
     except ImportError as e:
         raise type(e)(str(e) + ", vtr output not possible!")
-- 
2.43.0


From 8dc5ceebcdb2f3395db4a93513b72ebea135fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:10 +0000
Subject: [PATCH 28/45] fix: trends of AEs without background cells are ignored

---
 hyvr/geo/model.py | 48 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index bc41132..b50fcf1 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -231,31 +231,29 @@ class Model:
                         m0 = ha_arr == -1
                         ms = ae_arr == ae.num
                         ae_mask = m0 & ms     # Get material that equals zero within in architectural element
-                        if np.all(ae_mask == False):
-                            continue
-
-                        ae_bg_facies = ae.bg_facies
-
-                        # Assign background material
-                        k_ae_flat = hu.specsim(self.grid,
-                                            hydraulics['sig_y'][ae_bg_facies],
-                                            hydraulics['ycorlengths'][ae_bg_facies], 
-                                            covmod='exp',
-                                            selection_mask=ae_mask)
-                        k_ae_flat = np.exp(k_ae_flat) * hydraulics['k_h'][ae_bg_facies]          # back-transform from log space
-                        k_iso[ae_mask] = k_ae_flat
-
-                        # Generate internal heterogeneity - porosity
-                        n_flat = hu.specsim(self.grid,
-                                            hydraulics['sig_n'][ae_bg_facies],
-                                            hydraulics['ncorlengths'][ae_bg_facies],
-                                            covmod='exp',
-                                            selection_mask=ae_mask)
-                        n_flat = n_flat + hydraulics['n'][ae_bg_facies]
-                        poros[ae_mask] = n_flat
-
-                        # Assign background anisotropy ratio
-                        anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
+                        if np.any(ae_mask):
+                            ae_bg_facies = ae.bg_facies
+
+                            # Assign background material
+                            k_ae_flat = hu.specsim(self.grid,
+                                                hydraulics['sig_y'][ae_bg_facies],
+                                                hydraulics['ycorlengths'][ae_bg_facies], 
+                                                covmod='exp',
+                                                selection_mask=ae_mask)
+                            k_ae_flat = np.exp(k_ae_flat) * hydraulics['k_h'][ae_bg_facies]          # back-transform from log space
+                            k_iso[ae_mask] = k_ae_flat
+
+                            # Generate internal heterogeneity - porosity
+                            n_flat = hu.specsim(self.grid,
+                                                hydraulics['sig_n'][ae_bg_facies],
+                                                hydraulics['ncorlengths'][ae_bg_facies],
+                                                covmod='exp',
+                                                selection_mask=ae_mask)
+                            n_flat = n_flat + hydraulics['n'][ae_bg_facies]
+                            poros[ae_mask] = n_flat
+
+                            # Assign background anisotropy ratio
+                            anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
 
                         # Assign architectural element trends
                         if ae.type_params['k_ztrend'] is not None:
-- 
2.43.0


From 4b528af2e97d26e1956df94cf0d9eba86e8dcbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:10 +0000
Subject: [PATCH 29/45] fix: porosity trends of AEs are ignored

---
 hyvr/geo/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b50fcf1..fa1fdb8 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -263,6 +263,12 @@ class Model:
                         if ae.type_params['k_xtrend'] is not None:
                             xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
                             k_iso[ms] = np.transpose(k_iso.transpose() * xf_vec)[ms]
+                        if ae.type_params['n_ztrend'] is not None:
+                            zf_vec = np.linspace(*ae.type_params['n_ztrend'], self.grid.nz)
+                            poros[ms] = (poros * zf_vec)[ms]
+                        if ae.type_params['n_xtrend'] is not None:
+                            xf_vec = np.linspace(*ae.type_params['n_xtrend'], self.grid.nx)
+                            poros[ms] = np.transpose(poros.transpose() * xf_vec)[ms]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
-- 
2.43.0


From a5fa0164cbfa214e702d54f54eb3b53bb4ae95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:23 +0000
Subject: [PATCH 30/45] fix: manually placed troughs are lost if they are not
 given from top to bottom

---
 hyvr/geo/trough_ae.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 8c03597..bed7d5d 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -70,7 +70,8 @@ cdef class TroughAE(AERealization):
                 self.bottom_surface, self.top_surface, self.type_params, grid
             )
         else:
-            te_xyz = self.type_params['te_xyz']
+            # objects must be ordered from top to bottom
+            te_xyz = sorted(self.type_params['te_xyz'], key=lambda xyz: xyz[2], reverse=True)
 
         # Generate troughs
         for xc, yc, zc in te_xyz:
-- 
2.43.0


From 50ea3b586bf0f3763b694a12a5acc04698991cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 31/45] fix: lists of lists of different lengths can not be
 used with more than two dimensions

---
 hyvr/input/option_parsing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index ac829bc..04d67e5 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -293,6 +293,11 @@ class Option():
                             if depth < mindepth:
                                 raise ValueError('Option ' + self.name + ' in section ' +
                                                 section.name + ' can not be expanded!')
+                            # The given dimensions were already checked above, so
+                            # we only have to expand the missing dimensions
+                            for n in shape[:-depth][::-1]:
+                                value = [value] * n
+                            return value
                     elif -1 in shape:
                         raise ValueError('Option ' + self.name + ' in section ' +
                                          section.name + ' can not be expanded!')
-- 
2.43.0


From ff080993d1098ab903a1512577dcf0b08f3a7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 32/45] fix: overwriting a run directory that contains a link
 to a directory crashes

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index dbfe7fe..7f23e58 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -505,7 +505,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if path.is_file():
+                if path.is_file() or path.is_symlink():
                     path.unlink()
                 elif path.is_dir():
                     shutil.rmtree(path)
-- 
2.43.0


From bbc844fc0a887a2d63bc9f093105815add2e702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 33/45] fix: modflow output mixes up rows and columns and is
 upside down

---
 hyvr/postprocess/output.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 1a36fd5..fdacb0a 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -192,26 +192,26 @@ def to_modflow(model, fname):
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
     botm = np.linspace(ztop, zbot, model.grid.nz + 1)
-    dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.nx, model.grid.ny, 
+    dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.ny, model.grid.nx, 
                                    delr=model.grid.dx, delc=model.grid.dy,
                                    top=ztop, botm=botm[1:])
 
     # Variables for the BAS package
-    ibound = np.ones((model.grid.nz, model.grid.nx, model.grid.ny), dtype=np.int32)
+    ibound = np.ones((model.grid.nz, model.grid.ny, model.grid.nx), dtype=np.int32)
     ibound[:, :, 0] = -1
     ibound[:, :, -1] = -1
 
-    strt = np.ones((model.grid.nz, model.grid.nx, model.grid.ny), dtype=np.float32)
+    strt = np.ones((model.grid.nz, model.grid.ny, model.grid.nx), dtype=np.float32)
     strt[:, :, 0] = model.flowtrans['hin'][0]
     strt[:, :, -1] = model.flowtrans['hout'][0]
 
     bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
 
-    # Assign hydraulic conductivity
-    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))
+    # Assign hydraulic conductivity, the first layer in modflow is the top layer
+    hyvr_hk = np.transpose(model.data['k_iso'], (2, 1, 0))[::-1]
     hyvr_layvka = 1                                           # VKA dataset is ratio of horizontal K
     if 'anirat' in model.data.keys():
-        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))
+        hyvr_vka = np.transpose(model.data['anirat'], (2, 1, 0))[::-1]
 
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
-- 
2.43.0


From 147833400b5f7c5b10999a79f74f85c91c92b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 34/45] fix: mf6 output is upside down and mixes up row and
 column widths

---
 hyvr/postprocess/output.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index fdacb0a..31b319f 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -255,13 +255,13 @@ def to_mf6(model, fname):
     mfdir.mkdir(parents=True, exist_ok=True)
     mfname = str(mfdir / runname)
 
-    # Transpose HyVR arrays for MF6 input
+    # Transpose HyVR arrays for MF6 input, the first layer in MF6 is the top layer
     transpose_order = (2, 1, 0)
-    k_iso = np.transpose(model.data['k_iso'], transpose_order)
+    k_iso = np.transpose(model.data['k_iso'], transpose_order)[::-1]
     if set(['anirat', 'dip', 'azim']).issubset(model.data.keys()):
-        anirat = np.transpose(model.data['anirat'], transpose_order)
-        dip = np.transpose(model.data['dip'], transpose_order)
-        azim = np.transpose(model.data['azim'], transpose_order)
+        anirat = np.transpose(model.data['anirat'], transpose_order)[::-1]
+        dip = np.transpose(model.data['dip'], transpose_order)[::-1]
+        azim = np.transpose(model.data['azim'], transpose_order)[::-1]
         xt3d = True
     else:
         xt3d = False
@@ -304,8 +304,8 @@ def to_mf6(model, fname):
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
                                                    ncol=model.grid.nx,
-                                                   delr=model.grid.dy,
-                                                   delc=model.grid.dx,
+                                                   delr=model.grid.dx,
+                                                   delc=model.grid.dy,
                                                    top=ztop,
                                                    botm=botm[1:],
                                                    filename='{}.dis'.format(runname))
-- 
2.43.0


From 05224aaea0708509636935128c0bdc1fb8229a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 35/45] fix: mf6 layer bottoms are rounded and have the wrong
 number for some grids

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 31b319f..8d41e9c 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -299,7 +299,7 @@ def to_mf6(model, fname):
     """ Create discretization """
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
-    botm = np.around(np.arange(ztop, zbot-model.grid.dz, -model.grid.dz), decimals=3)
+    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf,
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
-- 
2.43.0


From b0462604a12566872d819a1e20c67ddffcbe37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 36/45] fix: channels are not centered in domains that do not
 start at the origin

---
 hyvr/geo/channel_ae.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 8d727ab..9485d81 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -133,8 +133,8 @@ cdef class ChannelAE(AERealization):
 
             for i in range(n_channels):
                 # get start of channel
-                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
-                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                ystart_grid = grid.y0 + grid.ly/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = grid.x0 + grid.lx/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                 # generate centerline
                 outputs = ferguson_curve(grid,
                                          self.type_params['h'],
-- 
2.43.0


From dc023d8a2abc7b4469772a5220e3794184886157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 37/45] fix: old-format channels and nested bulbs are not
 translated to the new names

---
 hyvr/input/parameters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 7f23e58..68875b0 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -356,6 +356,13 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
+            if elem['structure'] == 'bulb_l':
+                elem['structure'] = 'bulb_sets'
+        elif elem['geometry'] == 'ext_par':
+            elem['geometry'] = 'channel'
+            elem['channel_no'] = int(elem['channel_no'])
+            elem['flow_angle'] = 0.
+            elem['mig'] = 0.
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
-- 
2.43.0


From bac7f071f8f4162d1b5281cd4153130e0b91e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 38/45] fix: old-format background and lag facies are floats
 and can not be used as indices

---
 hyvr/input/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 68875b0..430fe1c 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -343,7 +343,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem = elements[elem_name]
         elem['size_ztrend'] = elem['geo_ztrend']
         if elem['bg'] is not None:
-            elem['bg_facies'] = elem['bg'][0]
+            elem['bg_facies'] = int(elem['bg'][0])
             elem['bg_azim'] = elem['bg'][1]
             elem['bg_dip'] = elem['bg'][2]
         else:
@@ -367,7 +367,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
                 elem['lag_height'] = elem['lag'][0]
-                elem['lag_facies'] = elem['lag'][1]
+                elem['lag_facies'] = int(elem['lag'][1])
             else:
                 elem['lag_height'] = 0.0
                 elem['lag_facies'] = -1
-- 
2.43.0


From 4c22f59eb1000592089090c57338db7336fda2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 39/45] fix: invalid bg_facies in the strata section raises a
 TypeError

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 430fe1c..96aaa7b 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -228,7 +228,7 @@ def parse_inifile(p):
     try:
         strata['bg_facies'] = parse_facies(strata['bg_facies'], hydraulics['hydrofacies'])
     except:
-        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + strata['bg_facies'])
+        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + str(strata['bg_facies']))
 
 
     # flowtrans section
-- 
2.43.0


From 688a6ebfb25f4c0adbaf54ce727064fe3411fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 40/45] fix: missing parameter file given as a path raises a
 TypeError

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 96aaa7b..b9cde57 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -101,7 +101,7 @@ def parameters(inifile):
         # this is probably caused by a wrong encoding
         p.read(inifile, encoding='utf-8-sig')
     if len(p.sections()) == 0:
-        raise FileNotFoundError("Parameter file {:s} not found!".format(inifile))
+        raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
     old_format = 'dataoutputs' in dict(p['run'])
     if old_format:
-- 
2.43.0


From 72922614f957f6aa7ace92d95010ff77bea484a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:20 +0000
Subject: [PATCH 41/45] fix: massive sheets can be split in two by rounding

---
 hyvr/geo/sheet_ae.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 8a1b806..f05d8c5 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -71,6 +71,9 @@ class SheetAE(AERealization):
             thickness = self.type_params['lens_thickness']
 
         zbottom = self.zmax - thickness
+        if self.type_params['lens_thickness'] == -1:
+            # zmax - (zmax - zmin) might be slightly above zmin
+            zbottom = self.zmin
         top_surface = self.top_surface
         # create all sheets except the lowest one
         last_sheet = False
-- 
2.43.0


From 6a220f80609426b02d335603482a880c7c8bae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:12 +0000
Subject: [PATCH 42/45] fix: channel without centerline points in the domain
 leads to an integer overflow

---
 hyvr/geo/channel_ae.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 9485d81..275462c 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -220,6 +220,11 @@ cdef class ChannelAE(AERealization):
             geo_ids[0] = -1
             return
 
+        # the channel might pass the domain completely
+        if self.object_len_centerline[oi] == 0:
+            geo_ids[0] = -1
+            return
+
 
         # Otherwise, get the distance to the centerline in xy-plane and z-direction
         # If we have dipsets, we will also directly calculate the velocity
-- 
2.43.0


From 26d6366ad1a30aec10e0321665d4489d1deb117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:34 +0000
Subject: [PATCH 43/45] fix: random fields lose the variance of a whole plane
 of wave numbers

---
 hyvr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index c192bf7..48fa1ff 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -512,7 +512,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # Power spectrum of variable
     syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
     syy = np.abs(syy)       # Remove imaginary artifacts
-    syy[0] = 0
+    syy.flat[0] = 0         # zero mean
 
     real = np.random.randn(*syy.shape)
     imag = np.random.randn(*syy.shape)
-- 
2.43.0


From 996969e7ae7b2fd0f3cad0de5832503fe234b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:07 +0000
Subject: [PATCH 44/45] fix: mf6 output uses solver options that flopy does not
 accept anymore

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 8d41e9c..c3f736c 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -284,11 +284,11 @@ def to_mf6(model, fname):
     ims = flopy.mf6.ModflowIms(sim,
                                print_option='SUMMARY',
                                complexity='COMPLEX',
-                               outer_hclose=1e-3,
+                               outer_dvclose=1e-3,
                                outer_maximum=500,
                                under_relaxation='NONE',
                                inner_maximum=100,
-                               inner_hclose=1e-4,
+                               inner_dvclose=1e-4,
                                rcloserecord=0.001,
                                linear_acceleration='BICGSTAB',
                                scaling_method='NONE',
-- 
2.43.0


From 08caf926a83faf9acfdf986594d863574ed74374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 45/45] fix: the azimuth range of massive channels is ignored

---
 hyvr/geo/channel.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index aaf2fc2..bdcf73b 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -104,5 +104,6 @@ cdef class Channel:
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
+            self.azim = np.random.uniform(*type_params['azimuth'])
             self.dip = np.random.uniform(*type_params['dip'])
             self.facies = np.random.choice(type_params['facies'])
-- 
2.43.0

